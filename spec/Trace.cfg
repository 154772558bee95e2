INIT Init
NEXT Next
CONSTANTS TInit <- SInit
          TStep <- SStep
INVARIANT Report
CHECK_DEADLOCK FALSE
