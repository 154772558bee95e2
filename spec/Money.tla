------------------------------- MODULE Money --------------------------------
(***************************************************************************)
(* Currency collections: an amount of the native currency and a function   *)
(* from currency numbers to amounts.  An amount of zero may be present;    *)
(* adding and subtracting leaves none for the currencies of the second     *)
(* operand.                                                                *)
(***************************************************************************)
EXTENDS Num, Dict

None == "none"
Fail == [tok |-> None, m |-> <<>>]
Failed(c) == c.tok = None
Coins(tok, m) == [tok |-> tok, m |-> m]
Amount(c, k) == IF k \in DOMAIN c.m THEN c.m[k] ELSE Rep("0", 256)
IsZero(v) == StripZ(v) = ""

(* the exact operation per currency of b; Fail when one of the results is not an amount *)
Arith(o, a, b) ==
  LET tok == Checked("v120", Exact(o, a.tok, b.tok))
      new == TLCEval([k \in DOMAIN b.m |-> Checked("v248", Exact(o, Amount(a, k), b.m[k]))])
      gone == {k \in DOMAIN b.m : new[k] # None /\ IsZero(new[k])}
  IN  IF tok = None \/ \E k \in DOMAIN b.m : new[k] = None THEN Fail
      ELSE Coins(tok, TLCEval([k \in (DOMAIN a.m \cup DOMAIN b.m) \ gone |-> IF k \in DOMAIN b.m THEN new[k] ELSE a.m[k]]))
Least(a, b) == IF BCmp(a, b) <= 0 THEN a ELSE b
(* what both have *)
Clamp(a, b) ==
  Coins(Least(a.tok, b.tok),
        TLCEval([k \in {x \in DOMAIN a.m : x \in DOMAIN b.m \/ IsZero(a.m[x])} |-> IF k \in DOMAIN b.m THEN Least(a.m[k], b.m[k]) ELSE a.m[k]]))
Norm(a) == Coins(a.tok, [k \in {x \in DOMAIN a.m : ~IsZero(a.m[x])} |-> a.m[k]])
Do(o, a, b) == IF o = "clamp" THEN Clamp(a, b) ELSE Arith(o, a, b)

(* the dictionary of the other currencies *)
Encoded(m) == [k \in DOMAIN m |-> <<Stored("v248", m[k]), <<>>>>]
IsOther(m, root, T) == IsDict(Encoded(m), 32, root, T, FALSE)
(* an observed collection, <<native amount, root>>, is the given one *)
Is(x, c, T) == x[1] = c.tok /\ IsOther(c.m, x[2], T)
Fine(c) == InRange("v120", c.tok)
HeadBits(c) == Stored("v120", c.tok) \o (IF DOMAIN c.m = {} THEN "0" ELSE "1")
Refs(c) == IF DOMAIN c.m = {} THEN 0 ELSE 1
(* a collection given as a list of pairs; the last one counts *)
FromPairs(tok, q) ==
  LET at(k) == CHOOSE j \in 1..Len(q) : q[j][1] = k /\ \A l \in (j + 1)..Len(q) : q[l][1] # k
  IN  Coins(tok, [k \in {q[j][1] : j \in 1..Len(q)} |-> q[at(k)][2]])
PairsOk(q) == \A j \in 1..Len(q) : InRange("v248", q[j][2])
SortedKeys(m) == SetToSortSeq(DOMAIN m, LexLt)
Listed(m) == LET q == SortedKeys(m) IN [j \in 1..Len(q) |-> <<q[j], m[q[j]]>>]
=============================================================================
