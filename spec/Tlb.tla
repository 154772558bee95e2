-------------------------------- MODULE Tlb ----------------------------------
(***************************************************************************)
(* Structured data.  A type is a term that tells how it is written; a      *)
(* value is the list of its parts in the order they are written; and       *)
(* writing and reading are two interpretations of the same term.           *)
(*                                                                         *)
(* T is a table of cells with rows <<exotic, bits, refs>>.  Parts are bit  *)
(* strings (numbers as wide as they are kept), "=Name" for the alternative *)
(* that was taken, "#n" for cell n, "-" for an empty dictionary, and four  *)
(* parts for an address.                                                   *)
(***************************************************************************)
EXTENDS Num, Addr, Trees, FiniteSetsExt

(*------------------------------- the terms ------------------------------*)
U(n) == [k |-> "u", n |-> n]                  \* n bits
B == U(1)
C(b) == [k |-> "c", b |-> b]                  \* these bits
H(h) == C(Unhex(h))
Q(s) == [k |-> "q", s |-> s]                  \* one after another
Alt(s) == [k |-> "alt", s |-> s]              \* <<prefix, name, content>> of each alternative
Ver(t, s) == [k |-> "ver", t |-> t, s |-> s]  \* forms of the same: <<prefix, content>>; Form tells which is written
Opt(n) == [k |-> "opt", n |-> n]              \* a bit, and n if it is set
Ref(n) == [k |-> "ref", n |-> n]              \* n in a cell of its own
Cl == [k |-> "cell", exo |-> "any"]           \* any cell
Lz == [k |-> "cell", exo |-> "no"]            \* an ordinary one
LzX == [k |-> "cell", exo |-> "yes"]
N(t) == [k |-> "num", t |-> t]
D == [k |-> "dict"]
A(how) == [k |-> "addr", how |-> how]         \* "int", "optint", "optext"
Root(n, ext, val) == [k |-> "root", n |-> n, ext |-> ext, val |-> val] \* the root of a dictionary, here
If(at, j, n, e) == [k |-> "if", at |-> at, j |-> j, n |-> n, e |-> e]  \* whether bit j of part at of this type is set
Is(v) == [k |-> "is", v |-> v]                \* a part that is not written
Wide(n, w) == [k |-> "wide", n |-> n, w |-> w] \* n bits, kept in w
Chk(p) == [k |-> "chk", p |-> p]
Skip == [k |-> "skip"]                       \* a bit without meaning
Shard == [k |-> "shard"]
Gas == [k |-> "gas"]
Vals(c) == [k |-> "vals", c |-> c]            \* the list of a validator set, in a dictionary
Ty(t) == [k |-> "ty", t |-> t]
Nil == Q(<<>>)

U8 == U(8)
U16 == U(16)
U32 == U(32)
U64 == U(64)
U256 == U(256)
Tok == N("v120")
V56 == N("v56")
CC == Q(<<Tok, D>>)
Zero(n) == Rep("0", n)
Hash2 == Q(<<U32, U256, U256>>)
BRef == Q(<<U64, U32, U256, U256>>)
Used == Q(<<V56, V56>>)

Schema == [
  StorageUsed |-> Used,
  StorageUsedShort |-> Used,
  StorageExtra |-> Alt(<< <<"000", "None", Nil>>, <<"001", "DictHash", U256>> >>),
  StorageInfo |-> Q(<<Ty("StorageUsed"), Ty("StorageExtra"), U32, Opt(Tok)>>),
  AccountStatus |-> Alt(<< <<"00", "Uninit", Nil>>, <<"01", "Frozen", Nil>>, <<"10", "Active", Nil>>, <<"11", "NotExists", Nil>> >>),
  ShardAccount |-> Q(<<Lz, U256, U64>>),
  OptionalAccount |-> Opt(Ty("Account")),
  Account |-> Q(<<A("int"), Ty("StorageInfo"), U64, CC, Ty("AccountState")>>),
  AccountState |-> Alt(<< <<"1", "Active", Ty("StateInit")>>, <<"01", "Frozen", U256>>, <<"00", "Uninit", Nil>> >>),
  StateInit |-> Q(<<Opt(N("split")), Opt(Ty("SpecialFlags")), Opt(Cl), Opt(Cl), D>>),
  SpecialFlags |-> Q(<<B, B>>),
  SimpleLib |-> Q(<<B, Cl>>),
  Transaction |-> Q(<<C("0111"), U256, U64, U256, U64, U32, N("u15"), Ty("AccountStatus"), Ty("AccountStatus"), Ref(Q(<<Opt(Cl), D>>)), CC, Lz, Lz>>),
  TxInfo |-> Alt(<< <<"0000", "Ordinary", Ty("OrdinaryTxInfo")>>, <<"001", "TickTock", Ty("TickTockTxInfo")>> >>),
  OrdinaryTxInfo |-> Q(<<B, Opt(Ty("StoragePhase")), Opt(Ty("CreditPhase")), Ty("ComputePhase"), Opt(Ref(Ty("ActionPhase"))), B, Opt(Ty("BouncePhase")), B>>),
  TickTockTxInfo |-> Q(<<Ty("TickTock"), Ty("StoragePhase"), Ty("ComputePhase"), Opt(Ref(Ty("ActionPhase"))), B, B>>),
  TickTock |-> Alt(<< <<"0", "Tick", Nil>>, <<"1", "Tock", Nil>> >>),
  HashUpdate |-> Q(<<H("72"), U256, U256>>),
  StoragePhase |-> Q(<<Tok, Opt(Tok), Ty("AccountStatusChange")>>),
  CreditPhase |-> Q(<<Opt(Tok), CC>>),
  ComputePhase |-> Alt(<< <<"0", "Skipped", Ty("SkippedComputePhase")>>,
                          <<"1", "Executed", Q(<<B, B, B, Tok, Ref(Q(<<V56, V56, Opt(N("v24")), U8, U32, Opt(U32), U32, U256, U256>>))>>)>> >>),
  SkippedComputePhase |-> Ty("ComputePhaseSkipReason"),
  ComputePhaseSkipReason |-> Alt(<< <<"00", "NoState", Nil>>, <<"01", "BadState", Nil>>, <<"10", "NoGas", Nil>>, <<"110", "Suspended", Nil>> >>),
  ActionPhase |-> Q(<<B, B, B, Ty("AccountStatusChange"), Opt(Tok), Opt(Tok), U32, Opt(U32), U16, U16, U16, U16, U256, Used>>),
  BouncePhase |-> Alt(<< <<"1", "Executed", Ty("ExecutedBouncePhase")>>, <<"01", "NoFunds", Ty("NoFundsBouncePhase")>>, <<"00", "NegativeFunds", Nil>> >>),
  NoFundsBouncePhase |-> Q(<<Used, Tok>>),
  ExecutedBouncePhase |-> Q(<<Used, Tok, Tok>>),
  AccountStatusChange |-> Alt(<< <<"0", "Unchanged", Nil>>, <<"10", "Frozen", Nil>>, <<"11", "Deleted", Nil>> >>),
  IntermediateAddr |-> Alt(<< <<"0", "Regular", Ty("IntermediateAddrRegular")>>, <<"10", "Simple", Ty("IntermediateAddrSimple")>>, <<"11", "Ext", Ty("IntermediateAddrExt")>> >>),
  IntermediateAddrRegular |-> Q(<<Wide(7, 8), Chk("regular")>>),
  IntermediateAddrSimple |-> Q(<<U8, U64>>),
  IntermediateAddrExt |-> Q(<<U32, U64>>),
  MsgEnvelope |-> Q(<<C("0100"), Ty("IntermediateAddr"), Ty("IntermediateAddr"), Tok, Lz>>),
  ImportFees |-> Q(<<Tok, CC>>),
  InMsg |-> Alt(<< <<"000", "External", Ty("InMsgExternal")>>, <<"011", "Immediate", Ty("InMsgFinal")>>, <<"100", "Final", Ty("InMsgFinal")>>, <<"101", "Transit", Ty("InMsgTransit")>> >>),
  InMsgExternal |-> Q(<<Lz, Lz>>),
  InMsgFinal |-> Q(<<Lz, Lz, Tok>>),
  InMsgTransit |-> Q(<<Lz, Lz, Tok>>),
  EnqueuedMsg |-> Q(<<U64, Lz>>),
  OutMsg |-> Alt(<< <<"000", "External", Ty("OutMsgExternal")>>, <<"001", "New", Ty("OutMsgNew")>>, <<"010", "Immediate", Ty("OutMsgImmediate")>>,
                    <<"100", "DequeueImmediate", Ty("OutMsgDequeueImmediate")>>, <<"1101", "DequeueShort", Ty("OutMsgDequeueShort")>> >>),
  OutMsgExternal |-> Q(<<Lz, Lz>>),
  OutMsgNew |-> Q(<<Lz, Lz>>),
  OutMsgImmediate |-> Q(<<Lz, Lz, Lz>>),
  OutMsgDequeueImmediate |-> Q(<<Lz, Lz>>),
  OutMsgDequeueShort |-> Q(<<U256, U32, U64, U64>>),
  MsgInfo |-> Alt(<< <<"0", "Int", Q(<<B, B, B, A("int"), A("int"), CC, Tok, Tok, U64, U32>>)>>,
                     <<"10", "ExtIn", Q(<<A("optext"), A("int"), Tok>>)>>,
                     <<"11", "ExtOut", Q(<<A("int"), A("optext"), U64, U32>>)>> >>),
  RelaxedMsgInfo |-> Alt(<< <<"0", "Int", Q(<<B, B, B, A("optint"), A("int"), CC, Tok, Tok, U64, U32>>)>>,
                            <<"11", "ExtOut", Q(<<A("optint"), A("optext"), U64, U32>>)>> >>),
  CurrencyCollection |-> CC,
  ExtraCurrencyCollection |-> D,
  GlobalVersion |-> Q(<<H("c4"), U32, U64>>),
  BlockExtra |-> Q(<<H("4a33f6fd"), Lz, Lz, Lz, U256, U256, Opt(Lz)>>),
  AccountBlock |-> Q(<<C("0101"), U256, Root(64, CC, Lz), Lz>>),
  McBlockExtra |-> Q(<<H("cca5"), B, D, Ty("ShardFees"), Ref(Q(<<D, Opt(Lz), Opt(Lz)>>)), If(1, 1, Ty("BlockchainConfig"), Nil)>>),
  ShardIdentFull |-> Q(<<U32, U64>>),
  ShardFeeCreated |-> Q(<<CC, CC>>),
  BlockSignature |-> Q(<<U256, Ty("Signature")>>),
  Signature |-> Q(<<C("0101"), U(512)>>),
  BlockId |-> Q(<<Shard, U32, U256, U256>>),
  ShardIdent |-> Shard,
  BlockProof |-> Q(<<H("c3"), Ty("BlockId"), Cl, Opt(Ref(Ty("BlockSignatures")))>>),
  BlockSignatures |-> Q(<<H("11"), U32, U32, U32, U64, D>>),
  Block |-> Alt(<< <<Unhex("11ef55aa"), "Plain", Q(<<U32, Lz, Lz, LzX, Lz>>)>>, <<Unhex("11ef55bb"), "Updates", Q(<<U32, Lz, Lz, Ref(Q(<<LzX, D>>)), Lz>>)>> >>),
  BlockInfo |-> Q(<<H("9bc7a987"), U32, B, B, B, B, B, B, B, B, U8, U32, U32, Shard, U32, U64, U64, U32, U32, U32, U32,
                    If(10, 8, Ty("GlobalVersion"), Nil), If(2, 1, Lz, Nil), Cl, If(9, 1, Lz, Nil), Chk("blockinfo")>>),
  BlockRef |-> BRef,
  ValueFlow |-> Ver("ValueFlow", << <<Unhex("b8e48dfb"), Q(<<Ref(Q(<<CC, CC, CC, CC>>)), CC, Is(<<Zero(128), "-">>), Ref(Q(<<CC, CC, CC, CC>>))>>)>>,
                       <<Unhex("3ebf98b7"), Q(<<Ref(Q(<<CC, CC, CC, CC>>)), CC, CC, Ref(Q(<<CC, CC, CC, CC>>))>>)>> >>),
  ShardHashes |-> D,
  ShardDescription |-> Ver("ShardDescription", << <<"1010", Q(<<Ty("ShardDescription0"), Ref(Q(<<CC, CC>>))>>)>>, <<"1011", Q(<<Ty("ShardDescription0"), CC, CC>>)>> >>),
  ShardDescription0 |-> Q(<<U32, U32, U64, U64, U256, U256, B, B, B, B, B, C("000"), U32, U64, U32, U32, Opt(Ty("FutureSplitMerge"))>>),
  FutureSplitMerge |-> Alt(<< <<"0", "Split", Q(<<U32, U32>>)>>, <<"1", "Merge", Q(<<U32, U32>>)>> >>),
  ShardState |-> Alt(<< <<"1", "Unsplit", Ty("ShardStateUnsplit1")>>, <<"0", "Split", Ty("ShardStateSplit1")>> >>),
  ShardStateUnsplit |-> Q(<<H("9023afe2"), Ty("ShardStateUnsplit0")>>),
  ShardStateUnsplit1 |-> Q(<<C(Drop(Unhex("9023afe2"), 1)), Ty("ShardStateUnsplit0")>>),
  ShardStateUnsplit0 |-> Q(<<U32, Shard, U32, U32, U32, U64, U32, Cl, B, Lz, Ref(Q(<<U64, U64, CC, CC, D, Opt(BRef)>>)), Opt(Lz)>>),
  ShardStateSplit |-> Q(<<H("5f327da5"), Lz, Lz>>),
  ShardStateSplit1 |-> Q(<<C(Drop(Unhex("5f327da5"), 1)), Lz, Lz>>),
  LibDescr |-> Q(<<C("00"), Cl, Root(256, Nil, Nil)>>),
  DepthBalanceInfo |-> Q(<<Wide(5, 8), CC, Chk("depth")>>),
  McStateExtra |-> Q(<<H("cc26"), D, Ty("BlockchainConfig"),
                       Ref(Q(<<C(Zero(14)), Skip, B, U32, U32, B, D, B, U64, B, Opt(BRef), If(4, 1, Q(<<H("17"), D>>), Nil)>>)), CC>>),
  ValidatorInfo |-> Q(<<U32, U32, B>>),
  ValidatorBaseInfo |-> Q(<<U32, U32>>),
  ConsensusInfo |-> Q(<<U32, U32, U32, U64, B>>),
  GenesisInfo |-> Q(<<U32, U64>>),
  KeyBlockRef |-> Q(<<B, BRef>>),
  KeyMaxLt |-> Q(<<B, U64>>),
  CreatorStats |-> Q(<<C("0100"), U32, U64, U64, U64, U32, U64, U64, U64>>),
  BlockCounters |-> Q(<<U32, U64, U64, U64>>),
  BlockchainConfig |-> Q(<<U256, Cl>>),
  BurningConfig |-> Q(<<H("01"), Opt(U256), U32, U32, Chk("burning")>>),
  MintOnceConfig |-> Q(<<H("01"), U32, CC>>),
  ConfigVotingSetup |-> Q(<<H("91"), Lz, Lz>>),
  ConfigProposalSetup |-> Q(<<H("36"), U8, U8, U8, U8, U32, U32, U32, U32>>),
  WorkchainDescription |-> Q(<<H("a6"), U32, U8, U8, U8, B, B, B, C(Zero(13)), U256, U256, U32, Ty("WorkchainFormat"), Chk("workchain")>>),
  WorkchainFormat |-> Alt(<< <<"0001", "Basic", Ty("WorkchainFormatBasic")>>, <<"0000", "Extended", Ty("WorkchainFormatExtended")>> >>),
  WorkchainFormatBasic |-> Q(<<U32, U64>>),
  WorkchainFormatExtended |-> Q(<<N("u12"), N("u12"), N("u12"), U32, Chk("format")>>),
  BlockCreationRewards |-> Q(<<H("6b"), Tok, Tok>>),
  ElectionTimings |-> Q(<<U32, U32, U32, U32>>),
  ValidatorCountParams |-> Q(<<U16, U16, U16>>),
  ValidatorStakeParams |-> Q(<<Tok, Tok, Tok, U32>>),
  StoragePrices |-> Q(<<H("cc"), U32, U64, U64, U64, U64>>),
  GasLimitsPrices |-> Gas,
  BlockParamLimits |-> Q(<<H("c3"), U32, U32, U32, Chk("limits")>>),
  BlockLimits |-> Q(<<H("5d"), Ty("BlockParamLimits"), Ty("BlockParamLimits"), Ty("BlockParamLimits")>>),
  MsgForwardPrices |-> Q(<<H("ea"), U64, U64, U64, U32, U16, U16>>),
  CatchainConfig |-> Ver("CatchainConfig", << <<Unhex("c2"), Q(<<C(Zero(6)), B, B, U32, U32, U32, U32>>)>>, <<Unhex("c1"), Q(<<Is(<<"0", "0">>), U32, U32, U32, U32>>)>> >>),
  ConsensusConfig |-> Ver("ConsensusConfig", << <<Unhex("d7"), Q(<<C(Zero(7)), B, Wide(8, 32), U32, U32, U32, U32, U32, U32, U32, Chk("consensus")>>)>>,
                             <<Unhex("d6"), Q(<<Is(<<"0">>), U32, U32, U32, U32, U32, U32, U32, U32, Chk("consensus")>>)>> >>),
  ValidatorSet |-> Ver("ValidatorSet", << <<Unhex("12"), Q(<<U32, U32, U16, U16, U64, Chk("mainsize"), Vals(TRUE)>>)>>, <<Unhex("11"), Q(<<U32, U32, U16, U16, Chk("mainsize"), Vals(FALSE)>>)>> >>),
  ValidatorDescription |-> Ver("ValidatorDescription", << <<Unhex("538e81278a"), Q(<<U256, U64, Is(<<"0", Zero(32)>>)>>)>>, <<Unhex("738e81278a"), Q(<<U256, U64, Is(<<"1">>), U256, Is(<<Zero(32)>>)>>)>>,
                                  <<Unhex("938e81278a"), Q(<<U256, U64, Is(<<"1">>), U256, U32>>)>> >>),
  SizeLimitsConfig |-> Q(<<H("02"), U32, U32, U32, U16, U32, U16, U32, U32, U32, U32>>),
  OutAction |-> Alt(<< <<Unhex("0ec3c86d"), "SendMsg", Q(<<U8, Lz>>)>>, <<Unhex("ad4de08e"), "SetCode", Cl>>, <<Unhex("36e6b809"), "Reserve", Q(<<U8, CC>>)>>,
                       <<Unhex("26fa1dd4"), "ChangeLibrary", Q(<<U(7), Alt(<< <<"0", "Hash", U256>>, <<"1", "Cell", Cl>> >>)>>)>> >>),
  Versioned |-> Ver("Versioned", << <<Unhex("a2"), Q(<<U16, Opt(U8), U32, B, D>>)>>, <<Unhex("01"), Q(<<U16, Opt(U8), U32, B, Is(<<"-">>)>>)>>,
                       <<Unhex("00"), Q(<<U16, Opt(U8), Is(<<Zero(32)>>), B, Is(<<"-">>)>>)>> >>),
  Tagged |-> Q(<<C("101"), U8, B, U32>>),
  AccountBlocks |-> Q(<<D, CC>>),
  InMsgDescr |-> Q(<<D, Ty("ImportFees")>>),
  OutMsgDescr |-> Q(<<D, CC>>),
  ShardFees |-> Q(<<D, CC, CC>>),
  ShardAccounts |-> Q(<<D, Ty("DepthBalanceInfo")>>) ]

(*------------------------------- validity -------------------------------*)
Le(a, b) == BCmp(a, b) <= 0
Zeros(a) == StripZ(a) = ""
(* v: the parts so far; o: where those of the type begin *)
Holds(p, v, o) ==
  CASE p = "regular" -> Le(v[o + 1], Nat2Bits(96, 8))
    [] p = "depth" -> Le(v[o + 1], Nat2Bits(30, 8))
    [] p = "blockinfo" -> ~Zeros(v[o + 11]) /\ (v[o + 9] = "1" => ~Zeros(v[o + 12]))
    [] p = "burning" -> ~Zeros(v[Len(v)]) /\ Le(v[Len(v) - 1], v[Len(v)])
    [] p = "limits" -> Le(v[o + 1], v[o + 2]) /\ Le(v[o + 2], v[o + 3])
    [] p = "format" -> /\ Le(Nat2Bits(64, 12), v[o + 1]) /\ Le(v[o + 1], v[o + 2]) /\ Le(v[o + 2], Nat2Bits(1023, 12))
                       /\ Le(v[o + 3], Nat2Bits(1023, 12)) /\ ~Zeros(v[o + 4])
    [] p = "workchain" -> /\ Le(v[o + 3], v[o + 4]) /\ Le(v[o + 4], Nat2Bits(60, 8))
                          /\ (v[o + 5] = "1") = (v[o + 11] = "=Basic")
    [] p = "consensus" -> ~Zeros(v[o + 2])
    [] p = "mainsize" -> ~Zeros(v[o + 4]) /\ Le(v[o + 4], v[o + 3])

(*-------------------------------- reading -------------------------------*)
(* s: [ok, b, r, v] bits and references left, parts so far; x: whether cells must be used up *)
NotOk(s) == [s EXCEPT !.ok = FALSE]
Put(s, n, leaf) == [s EXCEPT !.b = Drop(@, n), !.v = Append(@, leaf)]
Leaf(k) == "#" \o ToString(k)
IdOf(T, row) == LET S == {k \in 1..Len(T) : T[k] = row} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
Number(leaf) == Bits2Nat(StripZ(DecBits(Drop(leaf, 1))))

TakeRef(s, leaf) == [s EXCEPT !.r = Tail(@), !.v = Append(@, leaf)]
DecCell(T, s, exo) ==
  IF s.r = <<>> THEN NotOk(s)
  ELSE IF exo = "no" /\ T[s.r[1]][1] = 1 THEN NotOk(s)
  ELSE IF exo = "yes" /\ T[s.r[1]][1] = 0 THEN NotOk(s)
  ELSE TakeRef(s, Leaf(s.r[1]))
DecAddr(s, how) ==
  LET l == LoadAddr(s.b)
      a == l[1]
      good == CASE how = "int" -> a.t \in {"std", "var"}
                [] how = "optint" -> a.t \in {"std", "var", "none"}
                [] how = "optext" -> a.t \in {"ext", "none"}
  IN  IF ~good THEN NotOk(s) ELSE [s EXCEPT !.b = l[2], !.v = @ \o <<a.t, a.any, a.wc, a.v>>]
DecShard(s) ==
  IF Len(s.b) < 104 THEN NotOk(s)
  ELSE LET n == Bits2Nat(Take(s.b, 8))  p == Take(Drop(s.b, 40), 64) IN
       IF n > 60 THEN NotOk(s)
       ELSE [s EXCEPT !.b = Drop(@, 104), !.v = @ \o <<Take(Drop(s.b, 8), 32), Take(p, n) \o "1" \o Zero(63 - n)>>]
First8(s) == Take(s.b, Min2(8, Len(s.b)))
Drop2(q) == SubSeq(q, 3, Len(q))

RECURSIVE Dec(_, _, _, _, _), DecGas(_, _, _)
(* prefixes with flat prices may come before; the last one counts *)
DecGas(s, lim, price) ==
  LET t == First8(s)
      f(j) == Take(Drop(s.b, 8 + 64 * (j - 1)), 64)
  IN  IF t = Unhex("d1") /\ Len(s.b) >= 136 THEN DecGas([s EXCEPT !.b = Drop(@, 136)], f(1), f(2))
      ELSE IF t = Unhex("de") /\ Len(s.b) >= 456 THEN [s EXCEPT !.b = Drop(@, 456), !.v = @ \o <<lim, price, f(1), f(2), f(3), f(4), f(5), f(6), f(7)>>]
      ELSE IF t = Unhex("dd") /\ Len(s.b) >= 392 THEN [s EXCEPT !.b = Drop(@, 392), !.v = @ \o <<lim, price, f(1), f(2), Zero(64), f(3), f(4), f(5), f(6)>>]
      ELSE NotOk(s)
(* the root of a dictionary with keys of n bits, followed by what is left *)
DecRoot(T, s, t, x, o) ==
  LET l == ReadLabel(s.b, t.n) IN
  IF l = Err THEN NotOk(s)
  ELSE LET leaf == Len(l[1]) = t.n
           in == [s EXCEPT !.b = Drop(@, l[2]), !.r = IF leaf THEN @ ELSE Drop2(@), !.v = <<>>]
           one == Dec(T, in, t.ext, FALSE, 0)
           end == IF ~leaf THEN one ELSE IF t.val = Nil THEN [one EXCEPT !.b = "", !.r = <<>>] ELSE Dec(T, one, t.val, FALSE, 0)
           row == <<0, Take(s.b, Len(s.b) - Len(end.b)), SubSeq(s.r, 1, Len(s.r) - Len(end.r))>>
       IN  IF (~leaf /\ Len(s.r) < 2) THEN NotOk(s)
           ELSE IF ~end.ok THEN NotOk(s)
           ELSE [s EXCEPT !.b = end.b, !.r = end.r, !.v = Append(@, Leaf(IdOf(T, row))) \o one.v]
(* the members of a validator set: keys count from 0, the weights add up *)
DecVals(T, s, t, o) ==
  LET l == ReadLabel(s.b, 16)
      leaf == l # Err /\ Len(l[1]) = 16
      total == Bits2Nat(s.v[o + 3])
      here == <<0, s.b, s.r>>
      empty == t.c /\ s.b # "" /\ BitAt(s.b, 1) = "0"
      bad == IF t.c THEN (s.b = "" \/ (~empty /\ s.r = <<>>)) ELSE (l = Err \/ (~leaf /\ Len(s.r) < 2))
      T2 == IF t.c THEN T ELSE Append(T, here)
      all == IF bad \/ empty THEN <<>> ELSE Entries(T2, IF t.c THEN s.r[1] ELSE Len(T2), 16)
      es == SubSeq(all, 1, Min2(total, Len(all)))
      Member(e) == Dec(T, [ok |-> TRUE, b |-> e[2], r |-> e[3], v |-> <<>>], Schema.ValidatorDescription, FALSE, 0)
      ds == [j \in 1..Len(es) |-> IF es[j] = Err THEN NotOk(s) ELSE IF es[j][1] # Nat2Bits(j - 1, 16) THEN NotOk(s) ELSE Member(es[j])]
      good == \A j \in 1..Len(ds) : ds[j].ok
      sum == FoldLeft(LAMBDA a, d : BAdd(a, d.v[2], 80), Zero(80), ds)
      weight == Widen(StripZ(sum), 64)
  IN  IF bad \/ Len(es) < total THEN NotOk(s)
      ELSE IF ~good THEN NotOk(s)
      ELSE IF Len(StripZ(sum)) > 64 THEN NotOk(s)
      ELSE IF t.c /\ s.v[o + 5] # weight THEN NotOk(s)
      ELSE [s EXCEPT !.b = IF t.c THEN Drop(@, 1) ELSE IF leaf THEN "" ELSE Drop(@, l[2]),
                     !.r = IF t.c THEN Tail(@) ELSE IF leaf THEN <<>> ELSE Drop2(@),
                     !.v = FoldLeft(LAMBDA a, d : a \o d.v, IF t.c THEN @ ELSE Append(@, weight), ds)]

Dec(T, s, t, x, o) ==
  IF ~s.ok THEN s
  ELSE CASE
     t.k = "q" -> FoldLeft(LAMBDA a, n : Dec(T, a, n, x, o), s, t.s)
  [] t.k = "u" -> IF Len(s.b) < t.n THEN NotOk(s) ELSE Put(s, t.n, Take(s.b, t.n))
  [] t.k = "wide" -> IF Len(s.b) < t.n THEN NotOk(s) ELSE Put(s, t.n, Widen(Take(s.b, t.n), t.w))
  [] t.k = "c" -> IF StartsWith(t.b, s.b) THEN [s EXCEPT !.b = Drop(@, Len(t.b))] ELSE NotOk(s)
  [] t.k = "skip" -> IF s.b = "" THEN NotOk(s) ELSE [s EXCEPT !.b = Drop(@, 1)]
  [] t.k = "ty" -> Dec(T, s, Schema[t.t], x, Len(s.v))
  [] t.k = "alt" -> LET S == {j \in 1..Len(t.s) : StartsWith(t.s[j][1], s.b)} IN
                    IF S = {} THEN NotOk(s)
                    ELSE LET a == t.s[CHOOSE j \in S : TRUE] IN Dec(T, Put(s, Len(a[1]), "=" \o a[2]), a[3], x, o)
  [] t.k = "ver" -> LET S == {j \in 1..Len(t.s) : StartsWith(t.s[j][1], s.b)} IN
                    IF S = {} THEN NotOk(s)
                    ELSE LET a == t.s[CHOOSE j \in S : TRUE] IN Dec(T, [s EXCEPT !.b = Drop(@, Len(a[1]))], a[2], x, o)
  [] t.k = "opt" -> IF s.b = "" THEN NotOk(s)
                    ELSE IF BitAt(s.b, 1) = "0" THEN Put(s, 1, "0") ELSE Dec(T, Put(s, 1, "1"), t.n, x, o)
  [] t.k = "ref" -> IF s.r = <<>> THEN NotOk(s)
                    ELSE LET c == T[s.r[1]]
                             e == Dec(T, [s EXCEPT !.b = c[2], !.r = c[3]], t.n, x, o)
                         IN  IF c[1] = 1 THEN NotOk(s)
                             ELSE IF ~e.ok \/ (x /\ (e.b # "" \/ e.r # <<>>)) THEN NotOk(s)
                             ELSE [s EXCEPT !.r = Tail(@), !.v = e.v]
  [] t.k = "cell" -> DecCell(T, s, t.exo)
  [] t.k = "dict" -> IF s.b = "" THEN NotOk(s)
                     ELSE IF BitAt(s.b, 1) = "0" THEN Put(s, 1, "-")
                     ELSE DecCell(T, [s EXCEPT !.b = Drop(@, 1)], "any")
  [] t.k = "num" -> LET l == Loaded(t.t, s.b) IN IF l = <<>> THEN NotOk(s) ELSE Put(s, l[2], l[1])
  [] t.k = "addr" -> DecAddr(s, t.how)
  [] t.k = "shard" -> DecShard(s)
  [] t.k = "gas" -> DecGas(s, Zero(64), Zero(64))
  [] t.k = "root" -> DecRoot(T, s, t, x, o)
  [] t.k = "vals" -> DecVals(T, s, t, o)
  [] t.k = "if" -> Dec(T, s, IF BitAt(s.v[o + t.at], t.j) = "1" THEN t.n ELSE t.e, x, o)
  [] t.k = "is" -> [s EXCEPT !.v = @ \o t.v]
  [] t.k = "chk" -> IF Holds(t.p, s.v, o) THEN s ELSE NotOk(s)
Read(T, ty, c, strict) ==
  LET row == T[c]
      s == [ok |-> row[1] = 0, b |-> row[2], r |-> row[3], v |-> <<>>]
      e == Dec(T, s, Schema[ty], strict, 0)
  IN  IF strict /\ (e.b # "" \/ e.r # <<>>) THEN NotOk(e) ELSE e

(*-------------------------------- writing -------------------------------*)
(* w: [b, r, i, v, fit] bits and references so far; i parts of v are written; fit: every cell so far is small enough.
   A cell that is not in the table is 0. *)
Add(w, n, b) == [w EXCEPT !.b = @ \o b, !.i = @ + n]
AddRef(w, n, id) == [w EXCEPT !.r = Append(@, id), !.i = @ + n]
Small(w) == Len(w.b) <= 1023 /\ Len(w.r) <= 4
Part(w, j) == w.v[w.i + j]
(* the form in which a value is written *)
Form(t, w) ==
  CASE t = "ValueFlow" -> IF Zeros(Part(w, 11)) /\ Part(w, 12) = "-" THEN 1 ELSE 2
    [] t = "ConsensusConfig" -> IF Len(StripZ(Part(w, 2))) <= 8 THEN 1 ELSE IF Part(w, 1) = "0" THEN 2 ELSE 1
    [] t = "ValidatorDescription" -> IF Part(w, 3) = "0" THEN 1 ELSE IF Zeros(Part(w, 5)) THEN 2 ELSE 3
    [] t = "Versioned" -> LET at == IF Part(w, 2) = "1" THEN 4 ELSE 3 IN  \* the oldest that has all of it
                          IF Part(w, at + 2) # "-" THEN 1 ELSE IF ~Zeros(Part(w, at)) THEN 2 ELSE 3
    [] OTHER -> 1

DI == INSTANCE Dict
RECURSIVE DictRow(_, _, _)
(* the root of the dictionary with these entries <<rest of key, bits, refs>>, in order *)
DictRow(T, es, n) ==
  IF Len(es) = 1 THEN <<0, DI!HmLabel(es[1][1], n) \o es[1][2], es[1][3]>>
  ELSE LET l == LcpLen(es[1][1], es[Len(es)][1])
           Side(b) == LET in == SelectSeq(es, LAMBDA e : BitAt(e[1], l + 1) = b) IN [j \in 1..Len(in) |-> <<Drop(in[j][1], l + 1), in[j][2], in[j][3]>>]
           kid(b) == IdOf(T, DictRow(T, Side(b), n - l - 1))
       IN  <<0, DI!HmLabel(Take(es[1][1], l), n), <<kid("0"), kid("1")>>>>

RECURSIVE Enc(_, _, _, _)
EncVals(T, w, t, o) ==
  LET total == Bits2Nat(w.v[o + 3])
      Members == FoldLeft(LAMBDA a, j : LET m == Enc(T, [a.w EXCEPT !.b = "", !.r = <<>>], Schema.ValidatorDescription, 0) IN
                                        [w |-> m, es |-> Append(a.es, <<Nat2Bits(j - 1, 16), m.b, m.r>>)],
                          [w |-> w, es |-> <<>>], [j \in 1..total |-> j])
  IN  IF total = 0 THEN Add(w, 0, "0")
      ELSE [w EXCEPT !.b = @ \o "1", !.r = Append(@, IdOf(T, DictRow(T, Members.es, 16))), !.i = Members.w.i]
(* o: how many parts come before those of the type *)
Enc(T, w, t, o) ==
  CASE
     t.k = "q" -> FoldLeft(LAMBDA a, n : Enc(T, a, n, o), w, t.s)
  [] t.k = "u" -> Add(w, 1, Part(w, 1))
  [] t.k = "wide" -> LET v == StripZ(Part(w, 1)) IN IF Len(v) > t.n THEN [Add(w, 1, "") EXCEPT !.fit = FALSE] ELSE Add(w, 1, Widen(v, t.n))
  [] t.k = "c" -> Add(w, 0, t.b)
  [] t.k = "skip" -> Add(w, 0, "0")
  [] t.k = "ty" -> Enc(T, w, Schema[t.t], w.i)
  [] t.k = "alt" -> LET a == t.s[CHOOSE j \in 1..Len(t.s) : "=" \o t.s[j][2] = Part(w, 1)] IN Enc(T, Add(w, 1, a[1]), a[3], o)
  [] t.k = "ver" -> LET a == t.s[Form(t.t, w)] IN Enc(T, Add(w, 0, a[1]), a[2], o)
  [] t.k = "opt" -> IF Part(w, 1) = "0" THEN Add(w, 1, "0") ELSE Enc(T, Add(w, 1, "1"), t.n, o)
  [] t.k = "ref" -> LET e == Enc(T, [w EXCEPT !.b = "", !.r = <<>>], t.n, o) IN
                    [w EXCEPT !.r = Append(@, IdOf(T, <<0, e.b, e.r>>)), !.i = e.i, !.fit = e.fit /\ Small(e)]
  [] t.k = "cell" -> AddRef(w, 1, Number(Part(w, 1)))
  [] t.k = "dict" -> IF Part(w, 1) = "-" THEN Add(w, 1, "0") ELSE [AddRef(w, 1, Number(Part(w, 1))) EXCEPT !.b = @ \o "1"]
  [] t.k = "num" -> Add(w, 1, Stored(t.t, Part(w, 1)))
  [] t.k = "addr" -> Add(w, 4, AddrBits([t |-> Part(w, 1), any |-> Part(w, 2), wc |-> Part(w, 3), v |-> Part(w, 4)]))
  [] t.k = "shard" -> LET p == Part(w, 2)  n == LastIdx(p, "1") - 1 IN
                      Add(w, 2, Nat2Bits(n, 8) \o Part(w, 1) \o Take(p, n) \o Zero(64 - n))
  [] t.k = "gas" -> Add(w, 9, Unhex("d1") \o Part(w, 1) \o Part(w, 2) \o Unhex("de") \o Part(w, 3) \o Part(w, 4) \o Part(w, 5)
                              \o Part(w, 6) \o Part(w, 7) \o Part(w, 8) \o Part(w, 9))
  [] t.k = "root" -> LET c == T[Number(Part(w, 1))]
                         e == Enc(T, Add(w, 1, ""), t.ext, o)
                     IN  [w EXCEPT !.b = @ \o c[2], !.r = @ \o c[3], !.i = e.i]
  [] t.k = "vals" -> EncVals(T, w, t, o)
  [] t.k = "if" -> Enc(T, w, IF BitAt(w.v[o + t.at], t.j) = "1" THEN t.n ELSE t.e, o)
  [] t.k = "is" -> Add(w, Len(t.v), "")
  [] t.k = "chk" -> IF Holds(t.p, SubSeq(w.v, 1, w.i), o) THEN w ELSE [w EXCEPT !.fit = FALSE]
Write(T, ty, v) == Enc(T, [b |-> "", r |-> <<>>, i |-> 0, v |-> v, fit |-> TRUE], Schema[ty], 0)
=============================================================================
