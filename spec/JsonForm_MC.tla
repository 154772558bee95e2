----------------------------- MODULE JsonForm_MC -----------------------------
(***************************************************************************)
(* Values of every type that has a textual form, and sets of capabilities. *)
(***************************************************************************)
EXTENDS TlbGen, JsonForm, Json, TLC

CONSTANTS Kinds, Seeds
VARIABLES ty, g, row, set

(* those with a textual form *)
TextTypes == {"StorageUsed", "StorageUsedShort", "StorageExtra", "StorageInfo", "AccountStatus", "ShardAccount", "OptionalAccount", "Account", "AccountState", "StateInit",
  "SpecialFlags", "SimpleLib", "Transaction", "TxInfo", "OrdinaryTxInfo", "TickTockTxInfo", "TickTock", "HashUpdate", "StoragePhase", "CreditPhase", "ComputePhase",
  "SkippedComputePhase", "ComputePhaseSkipReason", "ActionPhase", "BouncePhase", "NoFundsBouncePhase", "ExecutedBouncePhase", "AccountStatusChange", "ImportFees", "MsgInfo",
  "RelaxedMsgInfo", "CurrencyCollection", "ExtraCurrencyCollection", "GlobalVersion", "BlockId", "ShardIdent", "BlockInfo", "BlockRef", "ValueFlow", "GenesisInfo",
  "BurningConfig", "MintOnceConfig", "ConfigVotingSetup", "ConfigProposalSetup", "WorkchainDescription", "WorkchainFormat", "WorkchainFormatBasic", "WorkchainFormatExtended",
  "BlockCreationRewards", "ElectionTimings", "ValidatorCountParams", "ValidatorStakeParams", "StoragePrices", "GasLimitsPrices", "BlockParamLimits", "BlockLimits",
  "MsgForwardPrices", "CatchainConfig", "ConsensusConfig", "ValidatorSet", "ValidatorDescription", "SizeLimitsConfig"}

Init == ty = "" /\ g = Start(0) /\ row = 0 /\ set = ""
Choose == /\ ty = "" /\ set = ""
          /\ \E t \in Kinds, seed \in 1..Seeds : ty' = t /\ g' = Turn(Turn(Start(seed))) /\ row' = 0 /\ set' = set
Make == /\ ty # "" /\ row = 0
        /\ LET e == TLCEval(Some(g, Ty(ty), 0))
               x == Intern(e.T, <<0, e.b, e.r>>)
           IN  /\ e.fit /\ Small(e) /\ e.good
               /\ g' = [e EXCEPT !.T = x[1]]
               /\ row' = x[2]
        /\ UNCHANGED <<ty, set>>
(* sets of one, of all but one, of every few *)
Pats == {Mask({j}) : j \in 0..63} \cup {Mask(0..63 \ {j}) : j \in 0..63} \cup {Mask({j \in 0..63 : j % n = k}) : <<n, k>> \in {<<n, k>> \in (1..7) \X (0..6) : k < n}} \cup {Mask({}), Mask(0..32), Mask(33..63)}
Set1 == /\ ty = "" /\ set = "" /\ set' \in Pats /\ UNCHANGED <<ty, g, row>>
Next == Choose \/ Make \/ Set1

Ready == row # 0
(* dictionaries made here have no content of their own *)
AllHere == \A j \in 1..Len(g.v) : ~StartsWith("#", g.v[j])
(* the form is of the value: reading gives the parts it was made of *)
ReadsBack == Ready => LET e == Read(g.T, ty, row, TRUE) IN e.ok /\ e.v = g.v
(* the set is the union of the known and of the others, and the names are apart *)
SetParts == set # "" => /\ Mask({InSet(set)[j] : j \in 1..Len(InSet(set))}) = set
                        /\ \A j \in 1..Len(Known(set)) : Has(set, Known(set)[j])
                        /\ \A j \in 0..63 : (Has(set, j) /\ Names[j] # "") <=> \E n \in 1..Len(Known(set)) : Known(set)[n] = j
ASSUME \A a, b \in 0..63 : (a # b /\ Names[a] # "") => Names[a] # Names[b]
All == SelectSeq([j \in 1..64 |-> Names[j - 1]], LAMBDA n : n # "") \o <<"CapReserved">>
Gen == /\ Ready => PrintT("GEN " \o ToJson([cfg |-> [none |-> 0, cells |-> g.T], ev |-> <<[op |-> "json", t |-> ty, cell |-> row, whole |-> AllHere]>>]))
       /\ set # "" => PrintT("GEN " \o ToJson([cfg |-> [none |-> 0, cells |-> <<>>], ev |-> [j \in 1..Len(All) |-> [op |-> "caps", bits |-> set, name |-> All[j]]]]))
=============================================================================
