------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* The parameters of a blockchain.  The state is a map from numbers to     *)
(* cells, kept as a list of <<32 bits, cell, whether it has a textual      *)
(* form>> in the order of the numbers.  Some numbers have a type; some     *)
(* questions are answered from the first of two places that has something. *)
(***************************************************************************)
EXTENDS Tlb

Num32(n) == Nat2Bits(n, 32)
Keys(s) == {s[j][1] : j \in 1..Len(s)}
At(s, k) == LET in == SelectSeq(s, LAMBDA e : e[1] = k) IN IF in = <<>> THEN <<k, 0, FALSE>> ELSE in[1]
Without(s, k) == SelectSeq(s, LAMBDA e : e[1] # k)
With(s, k, c, told) == SelectSeq(s, LAMBDA e : LexLt(e[1], k)) \o << <<k, c, told>> >> \o SelectSeq(s, LAMBDA e : LexLt(k, e[1]))
(* the first parameter is never removed *)
Removed(s, k) == IF k = Num32(0) THEN s ELSE Without(s, k)
Root1(T, s) == IF s = <<>> THEN 0 ELSE IdOf(T, DictRow(T, [j \in 1..Len(s) |-> <<s[j][1], "", <<s[j][2]>>>>], 32))

(*------------------------------- the types ------------------------------*)
Addr1 == U256
Here(n) == Root(n, Nil, Nil)
TypeOf(n) ==
  CASE n \in 0..4 -> U256
    [] n = 5 -> Ty("BurningConfig")
    [] n = 7 -> Ty("ExtraCurrencyCollection")
    [] n = 8 -> Ty("GlobalVersion")
    [] n \in {9, 10, 18} -> Here(32)
    [] n = 11 -> Ty("ConfigVotingSetup")
    [] n \in {12, 31} -> D
    [] n = 14 -> Ty("BlockCreationRewards")
    [] n = 15 -> Ty("ElectionTimings")
    [] n = 16 -> Ty("ValidatorCountParams")
    [] n = 17 -> Ty("ValidatorStakeParams")
    [] n = 19 -> U32
    [] n \in {20, 21} -> Ty("GasLimitsPrices")
    [] n \in {22, 23} -> Ty("BlockLimits")
    [] n \in {24, 25} -> Ty("MsgForwardPrices")
    [] n = 28 -> Ty("CatchainConfig")
    [] n = 29 -> Ty("ConsensusConfig")
    [] n \in 32..37 -> Ty("ValidatorSet")
    [] n = 43 -> Ty("SizeLimitsConfig")
    [] n = 50 -> Ty("MintOnceConfig")
    [] OTHER -> Nil
Small1(k) == IF Len(StripZ(k)) > 6 THEN 63 ELSE Bits2Nat(StripZ(k) \o "")
Typed(k) == TypeOf(Small1(k)) # Nil
(* where the answer is looked for *)
Places(what, mc, k) ==
  CASE what = "param" -> <<Small1(k)>>
    [] what = "elector" -> <<1>>
    [] what = "minter" -> <<2, 0>>
    [] what = "collector" -> <<3, 1>>
    [] what = "burning" -> <<5>>
    [] what = "version" -> <<8>>
    [] what = "mandatory" -> <<9>>
    [] what = "critical" -> <<10>>
    [] what = "workchains" -> <<12>>
    [] what \in {"reward", "rewards"} -> <<14>>
    [] what = "timings" -> <<15>>
    [] what = "counts" -> <<16>>
    [] what = "stakes" -> <<17>>
    [] what = "prices" -> <<18>>
    [] what = "global_id" -> <<19>>
    [] what = "gas" -> <<IF mc THEN 20 ELSE 21>>
    [] what = "limits" -> <<IF mc THEN 22 ELSE 23>>
    [] what = "forward" -> <<IF mc THEN 24 ELSE 25>>
    [] what = "catchain" -> <<28>>
    [] what = "consensus" -> <<29>>
    [] what = "fundamental" -> <<31>>
    [] what = "prev" -> <<33, 32>>
    [] what = "current" -> <<35, 34>>
    [] what = "next" -> <<37, 36>>
    [] what = "sizes" -> <<43>>
MayBeMissing(what) == what \in {"param", "prev", "next"}
(* <<"ok", parts>>, <<"none">> or <<"err">>.  What is there but cannot be read is an error, also where there is a second place. *)
Answer(T, s, what, mc, k) ==
  LET ps == Places(what, mc, k)
      in == SelectSeq(ps, LAMBDA n : Num32(n) \in Keys(s))
  IN  IF in = <<>> THEN (IF MayBeMissing(what) THEN <<"none">> ELSE <<"err">>)
      ELSE LET c == T[At(s, Num32(in[1]))[2]]
               e == Dec(T, [ok |-> c[1] = 0, b |-> c[2], r |-> c[3], v |-> <<>>], TypeOf(in[1]), FALSE, 0)
           IN  IF ~e.ok THEN <<"err">>
               ELSE <<"ok", IF what = "reward" THEN <<e.v[IF mc THEN 1 ELSE 2]>> ELSE e.v>>

(*------------------------------- writing --------------------------------*)
(* sorted, each key once: the last *)
InOrder(es) == FoldLeft(LAMBDA a, e : With(a, e[1], e, FALSE), <<>>, es)
RowsOf(T, ty, es) == LET o == InOrder(es) IN [j \in 1..Len(o) |-> LET w == IF ty = "" THEN [b |-> "", r |-> <<>>] ELSE Write(T, ty, o[j][2][2]) IN <<o[j][1], w.b, w.r>>]
(* the cell of a value, and whether there is one: <<fits, row>> *)
Written(T, what, n, v) ==
  CASE what \in {"mandatory", "critical"} -> IF v = <<>> THEN <<FALSE>> ELSE <<TRUE, DictRow(T, RowsOf(T, "", v), 32)>>
    [] what = "prices" -> IF v = <<>> THEN <<FALSE>> ELSE <<TRUE, DictRow(T, RowsOf(T, "StoragePrices", v), 32)>>
    [] what = "workchains" -> <<TRUE, IF v = <<>> THEN <<0, "0", <<>>>> ELSE <<0, "1", <<IdOf(T, DictRow(T, RowsOf(T, "WorkchainDescription", v), 32))>>>>>>
    [] what = "fundamental" -> <<TRUE, IF v = <<>> THEN <<0, "0", <<>>>> ELSE <<0, "1", <<IdOf(T, DictRow(T, RowsOf(T, "", v), 256))>>>>>>
    [] OTHER -> LET w == Enc(T, [b |-> "", r |-> <<>>, i |-> 0, v |-> v, fit |-> TRUE], TypeOf(n), 0) IN
                IF w.fit /\ Small(w) THEN <<TRUE, <<0, w.b, w.r>>>> ELSE <<FALSE>>
=============================================================================
