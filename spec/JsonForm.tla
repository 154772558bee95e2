------------------------------ MODULE JsonForm ------------------------------
(***************************************************************************)
(* The textual form of values: what is written for a value and read again  *)
(* is the same value, in every part.  The parts are those that Tlb reads   *)
(* from the cell the value came from, so that neither side of the textual  *)
(* form is trusted.  Sets of capabilities, which are written as lists of   *)
(* names, are sets of positions here.                                      *)
(***************************************************************************)
EXTENDS Msg, FiniteSets

(* Addresses with a rewritten prefix or of variable length have no text that is read, nor have parts of the masterchain, which has none. *)
PartOfMaster(v, j) == /\ j < Len(v) /\ v[j] = Rep("1", 32)
                      /\ Len(v[j + 1]) = 64 /\ v[j + 1] # "1" \o Zero(63)
Told(v) == \A j \in 1..Len(v) : v[j] # "var" /\ (v[j] = "std" => v[j + 1] = "-") /\ ~PartOfMaster(v, j)
(* Types whose form names the alternative beside its parts, which only formats that describe themselves can read. *)
Tagged == {"Account", "OptionalAccount", "AccountState", "ComputePhase", "BouncePhase", "OrdinaryTxInfo", "TickTockTxInfo",
           "TxInfo", "MsgInfo", "RelaxedMsgInfo", "WorkchainFormat", "WorkchainDescription"}

Names == [j \in 0..63 |->
  CASE j = 0 -> "CapIhrEnabled" [] j = 1 -> "CapCreateStatsEnabled" [] j = 2 -> "CapBounceMsgBody" [] j = 3 -> "CapReportVersion"
    [] j = 4 -> "CapSplitMergeTransactions" [] j = 5 -> "CapShortDequeue" [] j = 6 -> "CapMbppEnabled" [] j = 7 -> "CapFastStorageStat"
    [] j = 8 -> "CapInitCodeHash" [] j = 9 -> "CapOffHypercube" [] j = 10 -> "CapMyCode" [] j = 11 -> "CapSetLibCode"
    [] j = 12 -> "CapFixTupleIndexBug" [] j = 13 -> "CapRemp" [] j = 14 -> "CapDelections" [] j = 16 -> "CapFullBodyInBounced"
    [] j = 17 -> "CapStorageFeeToTvm" [] j = 18 -> "CapCopyleft" [] j = 19 -> "CapIndexAccounts" [] j = 20 -> "CapDiff"
    [] j = 21 -> "CapsTvmBugfixes2022" [] j = 22 -> "CapWorkchains" [] j = 23 -> "CapStcontNewFormat" [] j = 24 -> "CapFastStorageStatBugfix"
    [] j = 25 -> "CapResolveMerkleCell" [] j = 26 -> "CapSignatureWithId" [] j = 27 -> "CapBounceAfterFailedAction" [] j = 28 -> "CapGroth16"
    [] j = 29 -> "CapFeeInGasUnits" [] j = 30 -> "CapBigCells" [] j = 31 -> "CapSuspendedList" [] j = 32 -> "CapFastFinality"
    [] OTHER -> ""]
Has(b, j) == BitAt(b, 64 - j) = "1"
InSet(b) == SelectSeq([j \in 1..64 |-> j - 1], LAMBDA j : Has(b, j))
Known(b) == SelectSeq(InSet(b), LAMBDA j : Names[j] # "")
Mask(js) == FoldLeft(LAMBDA a, j : a \o (IF 63 - j \in js THEN "1" ELSE "0"), "", [j \in 1..64 |-> j - 1])
=============================================================================
