INIT Init
NEXT Next
VIEW View
CONSTANTS N = 3
          KeySet <- K3
          Vals <- V1
          Aug = FALSE
          MaxLists = 40
INVARIANTS Canonical Answers OrderOk SplitMergeOk NearestOk ExtraOk Emit
CHECK_DEADLOCK FALSE
