----------------------------- MODULE Money_MC -------------------------------
(***************************************************************************)
(* All pairs of collections of a few currencies with amounts at the ends   *)
(* of their ranges, with the laws of their arithmetic; and the same as     *)
(* histories.                                                              *)
(***************************************************************************)
EXTENDS Money, Json

CONSTANTS Ids, Toks
VARIABLES a, b

Two == {Rep("0", 32), Rep("1", 32)}
Three == Two \cup {"0" \o Rep("1", 31)}
Most248 == Rep("0", 8) \o Rep("1", 248)
Nums == {Widen("", 256), Widen("1", 256), Most248}
Tok(v) == Widen(v, 128)
Few == {"1", MostOf("v120")}
Maps == UNION {[S -> Nums] : S \in SUBSET Ids}
All(ts) == {Coins(Tok(x), m) : x \in ts, m \in Maps}

Init == a = Fail /\ b = Fail
Next == IF Failed(a) THEN a' \in All(Toks) /\ b' = b
        ELSE Failed(b) /\ a' = a /\ b' \in All({"1"})
Ready == ~Failed(b)

Plus == Do("add", a, b)
Minus == Do("sub", a, b)
Less == Do("clamp", a, b)
Le(x, y) == BCmp(x.tok, y.tok) <= 0 /\ \A k \in DOMAIN x.m : BCmp(x.m[k], Amount(y, k)) <= 0
Laws == Ready =>
  /\ Failed(Plus) = Failed(Do("add", b, a))
  /\ ~Failed(Plus) => /\ Norm(Plus) = Norm(Do("add", b, a))
                      /\ Norm(Do("sub", Plus, b)) = Norm(a)
                      /\ Le(a, Plus) /\ Le(b, Plus)
                      \* in normal form when the first operand is
                      /\ Norm(a) = a => Norm(Plus) = Plus
  /\ Failed(Minus) = ~Le(b, a)
  /\ ~Failed(Minus) => Norm(Do("add", Minus, b)) = Norm(a) /\ (Norm(a) = a => Norm(Minus) = Minus)
  /\ Le(Less, a) /\ Le(Less, b) /\ Norm(Do("clamp", b, a)) = Norm(Less)
  /\ \A k \in DOMAIN a.m \cup DOMAIN b.m : Amount(Less, k) \in {Amount(a, k), Amount(b, k)}
  /\ Norm(Norm(a)) = Norm(a) /\ (Le(Norm(a), a) /\ Le(a, Norm(a)))
Sizes == Ready => Len(HeadBits(a)) = 5 + 8 * Bytes(a.tok) /\ Fine(a)

How(c) == LET n == Cardinality(DOMAIN c.m) IN <<"set", "btree", "iter", "hash", "btreeref">>[1 + n]
Make(c, how) == [op |-> "make", how |-> how, tok |-> c.tok, pairs |-> IF how = "set" THEN Reverse(Listed(c.m)) ELSE Listed(c.m)]
Ops == <<Make(a, How(a)), Make(b, "set"), [op |-> "norm", a |-> 1], [op |-> "norm", a |-> 2], [op |-> "look", a |-> 1], [op |-> "look", a |-> 3],
         [op |-> "do", o |-> "clamp", a |-> 1, b |-> 2], [op |-> "look", a |-> 5], [op |-> "same", a |-> 1, b |-> 2], [op |-> "same", a |-> 1, b |-> 3],
         [op |-> "load", a |-> 1, more |-> 3, cut |-> 0], [op |-> "load", a |-> 1, more |-> 0, cut |-> 1],
         [op |-> "tokens", o |-> "add", a |-> 1, n |-> Tok(MostOf("v120"))], [op |-> "do", o |-> "add", a |-> 1, b |-> 2], [op |-> "do", o |-> "sub", a |-> 1, b |-> 2]>>
\* sums that exist are looked at again
Made == 5 + (IF StripZ(a.tok) = "" THEN 1 ELSE 0)
More == (IF Failed(Plus) THEN <<>> ELSE <<[op |-> "do", o |-> "sub", a |-> Made + 1, b |-> 2], [op |-> "same", a |-> Made + 1, b |-> 1]>>)
        \o <<[op |-> "sum", kind |-> "created", l |-> <<1, 2>>, r2 |-> <<2, 1>>, x |-> <<"", "">>],
             [op |-> "sum", kind |-> "import", l |-> <<1, 1>>, r2 |-> <<2, 1>>, x |-> <<a.tok, b.tok>>],
             [op |-> "sum", kind |-> "depth", l |-> <<1, 1>>, r2 |-> <<2, 1>>, x |-> <<"00111", "11110">>]>>
Gen == Ready => PrintT("GEN " \o ToJson([cfg |-> [none |-> 0], ev |-> Ops \o More]))
==============================================================================
