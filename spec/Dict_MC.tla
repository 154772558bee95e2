------------------------------- MODULE Dict_MC -------------------------------
(***************************************************************************)
(* The dictionary as a state machine, twice: as a function (m) and as a    *)
(* tree maintained the way a Patricia tree is (t), edge by edge.           *)
(*                                                                         *)
(* TLC explores every dictionary over KeySet and checks that the tree that *)
(* results from any history is the canonical tree of the function, that    *)
(* walking the tree answers what the function answers, and that the paths  *)
(* have the lengths that gas is charged for.                               *)
(*                                                                         *)
(* With SEL set, it also prints for every state a history that leads to it *)
(* followed by every operation that can be applied there; the harness      *)
(* executes these against the code.                                        *)
(***************************************************************************)
EXTENDS Dict, Json, IOUtils, Randomization

CONSTANTS N, KeySet, Vals, Aug, MaxLists
VARIABLES m, t, hist

V(k) == CHOOSE v \in Vals : TRUE
NoTree == [k |-> "none"]
LeafT(l, v) == [k |-> "leaf", l |-> l, v |-> v]
X(a) == IF ~Aug THEN 0 ELSE IF a.k = "leaf" THEN a.v[3] ELSE a.x
ForkT(l, a, b) == [k |-> "fork", l |-> l, a |-> a, b |-> b, x |-> Comb(X(a), X(b))]
Relabel(a, l) == [a EXCEPT !.l = l]

RECURSIVE CanonTree(_, _, _)
CanonTree(f, S, o) ==
  IF Cardinality(S) = 1 THEN LET k == CHOOSE x \in S : TRUE IN LeafT(Drop(k, o), f[k])
  ELSE LET l == SetLcp(S)
           x == CHOOSE x \in S : TRUE
           S0 == {y \in S : BitAt(y, l + 1) = "0"}
       IN  ForkT(SubSeq(x, o + 1, l), CanonTree(f, S0, l + 1), CanonTree(f, S \ S0, l + 1))
TreeOf(f) == IF Keys(f) = {} THEN NoTree ELSE CanonTree(f, Keys(f), 0)

RECURSIVE TIns(_, _, _)
TIns(a, key, v) ==
  IF a.k = "none" THEN LeafT(key, v)
  ELSE LET p == LcpLen(a.l, key) IN
  IF p = Len(key) THEN LeafT(key, v)
  ELSE IF p < Len(a.l)
  THEN LET old == Relabel(a, Drop(a.l, p + 1))
           new == LeafT(Drop(key, p + 1), v)
       IN  IF BitAt(key, p + 1) = "0" THEN ForkT(Take(a.l, p), new, old) ELSE ForkT(Take(a.l, p), old, new)
  ELSE IF BitAt(key, p + 1) = "0" THEN ForkT(a.l, TIns(a.a, Drop(key, p + 1), v), a.b)
       ELSE ForkT(a.l, a.a, TIns(a.b, Drop(key, p + 1), v))

RECURSIVE TRem(_, _)
TRem(a, key) ==
  IF a.k = "none" THEN a
  ELSE LET p == LcpLen(a.l, key) IN
  IF p < Len(a.l) THEN a
  ELSE IF a.k = "leaf" THEN NoTree
  ELSE LET bit == BitAt(key, p + 1)
           c == IF bit = "0" THEN TRem(a.a, Drop(key, p + 1)) ELSE TRem(a.b, Drop(key, p + 1))
           o == IF bit = "0" THEN a.b ELSE a.a
       IN  IF c.k = "none" THEN Relabel(o, a.l \o (IF bit = "0" THEN "1" ELSE "0") \o o.l)
           ELSE IF bit = "0" THEN ForkT(a.l, c, o) ELSE ForkT(a.l, o, c)

RECURSIVE TGet(_, _)
TGet(a, key) ==
  IF a.k = "none" THEN <<>>
  ELSE LET p == LcpLen(a.l, key) IN
  IF p < Len(a.l) THEN <<>>
  ELSE IF a.k = "leaf" THEN <<a.v>>
  ELSE TGet(IF BitAt(key, p + 1) = "0" THEN a.a ELSE a.b, Drop(key, p + 1))
RECURSIVE TVisit(_, _)
TVisit(a, key) ==
  IF a.k = "none" THEN 0
  ELSE LET p == LcpLen(a.l, key) IN
  IF p < Len(a.l) \/ a.k = "leaf" THEN 1
  ELSE 1 + TVisit(IF BitAt(key, p + 1) = "0" THEN a.a ELSE a.b, Drop(key, p + 1))

(* the walk of an iterator; only a fork at the very first bit has a sign *)
RECURSIVE Walk(_, _, _, _, _)
Walk(a, pre, rev, signed, root) ==
  IF a.k = "none" THEN <<>>
  ELSE IF a.k = "leaf" THEN <<pre \o a.l>>
  ELSE LET l == Walk(a.a, pre \o a.l \o "0", rev, signed, FALSE)
           r == Walk(a.b, pre \o a.l \o "1", rev, signed, FALSE)
       IN  IF rev # (signed /\ root /\ a.l = "") THEN r \o l ELSE l \o r

TSplit(a, p) ==
  IF a.k = "none" THEN <<a, a>>
  ELSE IF Len(a.l) > Len(p) THEN IF BitAt(a.l, Len(p) + 1) = "0" THEN <<a, NoTree>> ELSE <<NoTree, a>>
  ELSE <<Relabel(a.a, a.l \o "0" \o a.a.l), Relabel(a.b, a.l \o "1" \o a.b.l)>>
TMergeSib(a, b) ==
  IF a.k = "none" THEN b ELSE IF b.k = "none" THEN a
  ELSE LET p == LcpLen(a.l, b.l)
       IN  ForkT(Take(a.l, p), Relabel(a, Drop(a.l, p + 1)), Relabel(b, Drop(b.l, p + 1)))

Init == m = Empty /\ t = NoTree /\ hist = <<>>
Op(k, v) == [op |-> "ins", L |-> IF Aug THEN "aug" ELSE "free", d |-> 0, k |-> k, v |-> v, m |-> "set", alt |-> FALSE]
DoIns == \E k \in KeySet, v \in Vals :
           /\ m' = Put(m, k, v) /\ t' = TIns(t, k, v)
           /\ hist' = Append(hist, Op(k, v))
DoRem == \E k \in Keys(m) :
           /\ m' = Del(m, k) /\ t' = TRem(t, k)
           /\ hist' = Append(hist, [op |-> "rem", L |-> IF Aug THEN "aug" ELSE "free", d |-> 0, k |-> k, alt |-> FALSE])
Next == DoIns \/ DoRem
View == <<m, t>>

Canonical == t = TreeOf(m)
Answers ==
  /\ \A k \in KeySet : TGet(t, k) = (IF k \in Keys(m) THEN <<m[k]>> ELSE <<>>)
  /\ \A k \in KeySet : TVisit(t, k) = Visited(m, k)
  /\ \A k \in KeySet \ Keys(m) : TRem(t, k) = t
OrderOk ==
  \A rev \in BOOLEAN, signed \in BOOLEAN : Walk(t, "", rev, signed, TRUE) = InOrder(Keys(m), rev, signed)
PrefixesOf(S) == UNION {{Take(k, j) : j \in 0..(N - 1)} : k \in S}
SplitMergeOk ==
  \A p \in PrefixesOf(KeySet) : SplitOk(m, N, p) =>
     LET s == TSplit(t, p) l == SplitAt(m, p, "0") r == SplitAt(m, p, "1")
     IN  s = <<TreeOf(l), TreeOf(r)>> /\ Siblings(l, r) /\ TMergeSib(s[1], s[2]) = t
(* order of neighbours is consistent with iteration *)
NearestOk ==
  \A k \in KeySet, signed \in BOOLEAN :
     LET s == InOrder(Keys(m), FALSE, signed)
         nx == Nearest(Keys(m), k, TRUE, FALSE, signed)
         pv == Nearest(Keys(m), k, FALSE, FALSE, signed)
     IN  /\ (nx = <<>>) <=> \A j \in 1..Len(s) : ~Lt(k, s[j], signed)
         /\ nx # <<>> => \A j \in 1..Len(s) : Lt(k, s[j], signed) => ~Lt(s[j], nx[1], signed)
         /\ pv # <<>> => \A j \in 1..Len(s) : Lt(s[j], k, signed) => ~Lt(pv[1], s[j], signed)
ExtraOk == (Aug /\ t # NoTree) => X(t) = RootExtra(m)

(************************ histories for the harness ************************)
B == BOOLEAN
AsSeq(S) == SetToSeq(S)
L2 == IF Aug THEN {"aug"} ELSE {"free", "raw"}
Cp == [op |-> "copy", d |-> 0, t |-> 1]
Dump(d) == [op |-> "dump", d |-> d]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
OnCopy(S) == LET s == AsSeq(S) IN [j \in 1..(2 * Len(s)) |-> IF j % 2 = 1 THEN Cp ELSE s[j \div 2]]
OtherKeys == {k \in {Flip(x) : x \in KeySet} : TRUE}
MapOps ==
  AsSeq([op : {"get"}, L : L2, d : {0}, k : KeySet, alt : B]
        \cup (IF Aug THEN {} ELSE [op : {"getown"}, L : L2, d : {0}, k : KeySet]))
  \o OnCopy([op : {"ins"}, L : L2, d : {1}, k : KeySet, v : Vals, m : {"set", "replace", "add"}, alt : B])
  \o (IF Aug THEN <<>> ELSE OnCopy([op : {"insown"}, L : {"free"}, d : {1}, k : KeySet, v : Vals, m : {"set", "replace", "add"}]))
  \o OnCopy([op : {"rem"}, L : L2, d : {1}, k : KeySet, alt : B])
  \o <<Dump(0)>>
OrderOps ==
  AsSeq([op : {"find"}, L : L2, d : {0}, k : KeySet \cup OtherKeys, max : B, incl : B, signed : B])
  \o AsSeq([op : {"bound", "boundown"}, L : L2, d : {0}, max : B, signed : B, alt : B])
  \o AsSeq([op : {"iter"}, L : L2, d : {0}, kind : {"iter", "owned", "keys", "values", "ownvalues"}, rev : B, signed : B, alt : {FALSE}])
  \o OnCopy([op : {"rembound"}, L : L2, d : {1}, max : B, signed : B, alt : {FALSE}])
  \o AsSeq([op : {"union"}, L : {"free"}, d : {0}, d2 : {1}, rev : B, signed : B])
  \o AsSeq([op : {"union"}, L : {"free"}, d : {1}, d2 : {0}, rev : B, signed : B])
  \o <<Dump(0)>>
Lists == LET All == [KeySet -> {"no", "set", "rem"}]
             Some == IF Cardinality(All) <= MaxLists THEN All ELSE RandomSubset(MaxLists, All)
         IN  {LET ks == Sorted({k \in KeySet : f[k] # "no"}, FALSE)
              IN  [j \in 1..Len(ks) |-> <<ks[j], IF f[ks[j]] = "rem" THEN <<>> ELSE <<CHOOSE v \in Vals : TRUE>> >>] : f \in Some}
BulkOps ==
  (IF Aug
   THEN OnCopy({[op |-> "modify", L |-> "aug", d |-> 1, items |-> l] : l \in Lists})
   ELSE OnCopy({[op |-> "modify", L |-> "raw", d |-> 1, items |-> l] : l \in Lists}))
  \o <<[op |-> "build", L |-> IF Aug THEN "aug" ELSE "raw", t |-> 1, alt |-> FALSE,
        items |-> LET ks == Sorted(Keys(m), FALSE) IN [j \in 1..Len(ks) |-> <<ks[j], m[ks[j]]>>]]>>
  \o Flat([j \in 1..Cardinality(PrefixesOf(KeySet)) |->
        LET p == AsSeq(PrefixesOf(KeySet))[j] IN
        <<[op |-> "clear", d |-> 1], [op |-> "clear", d |-> 2],
          [op |-> "split", L |-> IF Aug THEN "aug" ELSE "raw", d |-> 0, k |-> p, t |-> 1, t2 |-> 2, alt |-> FALSE],
          [op |-> "mergesib", L |-> IF Aug THEN "aug" ELSE "free", d |-> 1, d2 |-> 2, t |-> 3],
          [op |-> "mergesib", L |-> IF Aug THEN "aug" ELSE "free", d |-> 2, d2 |-> 1, t |-> 3]>>])
  \o (IF Aug THEN <<>> ELSE <<Cp, [op |-> "merge", L |-> "free", d |-> 1, d2 |-> 0]>>)
  \o <<Dump(0)>>
AugOps ==
  MapOps \o BulkOps
  \o AsSeq([op : {"iter"}, L : {"aug"}, d : {0}, kind : {"iter", "keys", "values"}, rev : B, signed : B])
  \o AsSeq([op : {"byextra"}, L : {"aug"}, d : {0}, max : B])
  \o <<[op |-> "ser", L |-> "aug", d |-> 0]>>
SEL == IF "SEL" \in DOMAIN IOEnv THEN IOEnv.SEL ELSE ""
OpsFor(sel) == CASE sel = "map" -> MapOps [] sel = "order" -> OrderOps [] sel = "bulk" -> BulkOps [] sel = "aug" -> AugOps
Emit == SEL = "" \/ PrintT("GEN " \o ToJson([cfg |-> [n |-> N, kind |-> IF Aug THEN "u8" ELSE "", aug |-> IF Aug THEN 1 ELSE 0],
                                             ev |-> hist \o OpsFor(SEL)]))

K2 == {"00", "01", "10", "11"}
K3 == {a \o b : a \in {"0", "1"}, b \in K2}
K8 == {"00000000", "00000001", "00001000", "01111111", "10000000", "10000011", "11111111", "11111110"}
V1 == {<<"", <<>>>>}
V2 == {<<"", <<>>>>, <<"1", <<>>>>}
VA == {<<"1", <<>>, 7>>}
VA2 == {<<"1", <<>>, 7>>, <<"", <<>>, 300>>}
=============================================================================
