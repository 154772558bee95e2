------------------------------ MODULE Num_MC --------------------------------
(***************************************************************************)
(* Numbers of every type next to every border of bytes, words and range,   *)
(* alone and in pairs, with the laws of their encodings and operations;    *)
(* all of them are also histories.                                         *)
(***************************************************************************)
EXTENDS Num, Json, FiniteSets

CONSTANTS Ts, Near
VARIABLES t, a

TAll == {"v24", "v56", "v120", "v248", "u9", "u12", "u15", "split"}
In(x) == Types[x].in
(* 2^k - 1, 2^k, 2^k + 1 in w bits *)
Around(w, k) == LET p == Widen("1" \o Rep("0", k), w) IN {BSub(p, "1", w), p, BAdd(p, "1", w)}
Borders(x, near) == LET w == In(x)
                  all == {8 * k : k \in 0..(w \div 8 - 1)} \cup {Types[x].bits, w - 1} \cup {Types[x].bits - 1}
                  some == {0, 8, 64, 128, Types[x].bits - 1, Types[x].bits}
              IN  {k \in IF near THEN some ELSE all : k < w}
Values(x, near) == LET w == In(x) IN
  {v \in {Widen("", w), Rep("1", w), Widen(MostOf(x), w)} \cup UNION {Around(w, k) : k \in Borders(x, near)} : x # "split" \/ InRange(x, v)}

Init == t \in Ts /\ a = ""
Next == a = "" /\ a' \in Values(t, FALSE) /\ t' = t

Pairs == Values(t, Near)
Encodings ==
  a # "" /\ InRange(t, a) =>
    LET e == Stored(t, a) IN
    /\ Loaded(t, e) = <<Kept(t, StripZ(a)), Len(e)>>
    /\ Loaded(t, e \o "0110") = <<Kept(t, StripZ(a)), Len(e)>>
    /\ \A n \in {Len(e) - 1, Len(e) \div 2, 0} : Loaded(t, Take(e, n)) = <<>>
    \* the shortest one: no encoding of another length has the same value
    /\ Types[t].var => /\ Len(e) <= Types[t].len + Types[t].bits
                       /\ Bytes(a) > 0 => BitLen(Bits2Nat(SubSeq(e, Types[t].len + 1, Types[t].len + 8))) > 0
    /\ FromText(t, BDec(a)) = Kept(t, StripZ(a))
    /\ t # "split" => ParseRadix(ShowHex(a), 16, 248) = StripZ(a) /\ ParseRadix(ShowBin(a), 2, 248) = StripZ(a)
OutOfRange == a # "" /\ ~InRange(t, a) => FromText(t, BDec(a)) = "none"

W == In(t)
OpLaws == a # "" => \A b \in Pairs :
  LET sum == Exact("add", a, b)
      pro == Exact("mul", a, b)
      big == 2 * W + 4
  IN  /\ sum = Exact("add", b, a) /\ pro = Exact("mul", b, a)
      /\ Exact("sub", Widen(sum, W + 1), b) = StripZ(a)
      /\ (Checked(t, sum) = "none") = (BCmp(sum, MostOf(t)) > 0)
      /\ Checked(t, sum) # "none" => Saturated(t, sum) = Checked(t, sum)
      /\ StripZ(b) # "" => LET d == Exact("div", a, b)
                               m == Exact("rem", a, b)
                           IN  /\ BCmp(m, b) < 0
                               /\ StripZ(BAdd(BMul(Widen(d, W), b, big), m, big)) = StripZ(a)
                               /\ (pro # "" => Exact("div", pro, b) = StripZ(a))
      /\ BCmp(a, b) = (IF Exact("sub", a, b) = "-" THEN -1 ELSE IF StripZ(a) = StripZ(b) THEN 0 ELSE 1)

PairSeq == SetToSeq(Pairs)
Calcs == [k \in 1..Len(PairSeq) |-> [op |-> "calc", t |-> t, a |-> a, b |-> PairSeq[k]]]
Enc == Stored(t, a)
Quoted == t \in {"v120", "v248"}
Singles ==
  <<[op |-> "store", t |-> t, v |-> a, pre |-> 0], [op |-> "store", t |-> t, v |-> a, pre |-> 1023 - Min2(1023, Len(Enc))],
    [op |-> "store", t |-> t, v |-> a, pre |-> 1024 - Min2(1023, Len(Enc))],
    [op |-> "json", t |-> t, s |-> BDec(a), q |-> Quoted], [op |-> "json", t |-> t, s |-> BDec(a), q |-> ~Quoted], [op |-> "consts", t |-> t]>>
  \o (IF t = "split" THEN <<[op |-> "new", t |-> t, v |-> a], [op |-> "new", t |-> t, v |-> Widen("1" \o a, 16)], [op |-> "new", t |-> t, v |-> BSub("100000", a, 6)]>>
      ELSE <<[op |-> "text", t |-> t, s |-> BDec(a)], [op |-> "show", t |-> t, v |-> a], [op |-> "text", t |-> t, s |-> "+0" \o BDec(a)],
             [op |-> "shift", t |-> t, v |-> a, n |-> 0], [op |-> "shift", t |-> t, v |-> a, n |-> 1], [op |-> "shift", t |-> t, v |-> a, n |-> W \div 2], [op |-> "shift", t |-> t, v |-> a, n |-> W - 1]>>)
Loads == IF ~InRange(t, a) THEN <<>>
         ELSE <<[op |-> "load", t |-> t, v |-> Enc], [op |-> "load", t |-> t, v |-> Enc \o "101"], [op |-> "load", t |-> t, v |-> Take(Enc, Len(Enc) - 1)]>>
              \o (IF Types[t].var THEN \* leading zeros
                    [k \in 1..(Types[t].bits \div 8 - Bytes(a)) |-> [op |-> "load", t |-> t, v |-> Nat2Bits(Bytes(a) + k, Types[t].len) \o Rep("0", 8 * k) \o Drop(Enc, Types[t].len)]]
                  ELSE <<>>)
              \o (IF t = "split" THEN <<[op |-> "load", t |-> t, v |-> "00000"], [op |-> "load", t |-> t, v |-> "11111"]>> ELSE <<>>)
Radixes == IF t # "v248" THEN <<>> ELSE
  <<[op |-> "radix", t |-> t, s |-> ShowHex(a), n |-> 16], [op |-> "radix", t |-> t, s |-> Upper(ShowHex(a)), n |-> 16], [op |-> "radix", t |-> t, s |-> ShowBin(a), n |-> 2],
    [op |-> "radix", t |-> t, s |-> ShowHex(a), n |-> 17], [op |-> "radix", t |-> t, s |-> ShowHex(a), n |-> 36], [op |-> "radix", t |-> t, s |-> BDec(a), n |-> 10]>>
Gen == PrintT("GEN " \o ToJson([cfg |-> [none |-> 0], ev |-> IF a = "" THEN <<>> ELSE Calcs \o Singles \o Loads \o Radixes]))
==============================================================================
