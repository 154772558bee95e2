-------------------------------- MODULE Dict --------------------------------
(***************************************************************************)
(* Dictionaries (HashmapE n X and HashmapAugE n X Y).                      *)
(*                                                                         *)
(* A dictionary is a finite function from bit strings of length n to       *)
(* values.  A value is <<bits, refs>> or, in an augmented dictionary,      *)
(* <<bits, refs, extra>>.  What the operations of the code under test must *)
(* answer is defined on that function alone; the cell tree that stands for *)
(* a function is defined separately (Canon), so an implementation may      *)
(* maintain the tree however it likes.                                     *)
(***************************************************************************)
EXTENDS Bits, SequencesExt

Empty == <<>>
Keys(m) == DOMAIN m
Put(m, k, v) == (k :> v) @@ m
Del(m, k) == [x \in (DOMAIN m) \ {k} |-> m[x]]
MRestrict(m, S) == [x \in S |-> m[x]]

(***************************** the cell tree *******************************)
(* hml_short$0 / hml_long$10 / hml_same$11, the shortest one, where nb is  *)
(* the number of bits that are left of the key.                            *)
HmLabel(l, nb) ==
  LET len == Len(l)
      k   == BitLen(nb)
  IN  IF len > 1 /\ k < 2 * len - 1 /\ Uniform(l) THEN "11" \o BitAt(l, 1) \o Nat2Bits(len, k)
      ELSE IF k < len THEN "10" \o Nat2Bits(len, k) \o l
      ELSE "0" \o Rep("1", len) \o "0" \o l

SetLcp(S) == LET x == CHOOSE x \in S : TRUE
                 L == {LcpLen(x, y) : y \in S}
             IN  CHOOSE a \in L : \A b \in L : a <= b

Comb(l, r) == ((l * 3) + (r * 5) + 1) % 65536

Payload(v, aug) == IF aug THEN Nat2Bits(v[3], 16) \o v[1] ELSE v[1]
(* An odd extra owns a reference, to a cell with its complement. *)
XRefs(x) == x % 2
XRefsAre(x, refs, T) == /\ Len(refs) = XRefs(x)
                        /\ x % 2 = 1 => T[refs[1]] = <<0, Nat2Bits(65535 - x, 16), <<>>>>

(* The extra of a subtree, computed from the leaves. *)
RECURSIVE Extra(_, _)
Extra(m, S) ==
  IF Cardinality(S) = 1 THEN m[CHOOSE x \in S : TRUE][3]
  ELSE LET l == SetLcp(S)
           S0 == {x \in S : BitAt(x, l + 1) = "0"}
       IN  Comb(Extra(m, S0), Extra(m, S \ S0))
RootExtra(m) == IF Keys(m) = {} THEN 0 ELSE Extra(m, Keys(m))

(* Cell i of the table T is the root of the tree of the keys S (which share *)
(* their first o bits).                                                    *)
RECURSIVE Canon(_, _, _, _, _, _, _)
Canon(m, S, o, n, i, T, aug) ==
  /\ i \in 1..Len(T)
  /\ T[i][1] = 0
  /\ IF Cardinality(S) = 1
     THEN LET k == CHOOSE x \in S : TRUE
              v == m[k]
              x == IF aug THEN XRefs(v[3]) ELSE 0
         IN  /\ T[i][2] = HmLabel(Drop(k, o), n - o) \o Payload(v, aug)
             /\ Len(T[i][3]) >= x /\ Drop(T[i][3], x) = v[2]
             /\ aug => XRefsAre(v[3], Take(T[i][3], x), T)
     ELSE LET x  == CHOOSE x \in S : TRUE
              l  == SetLcp(S)
              S0 == {y \in S : BitAt(y, l + 1) = "0"}
              lbl == HmLabel(SubSeq(x, o + 1, l), n - o)
          IN  /\ Len(T[i][3]) >= 2
              /\ IF aug THEN XRefsAre(Extra(m, S), Drop(T[i][3], 2), T) ELSE Len(T[i][3]) = 2
              /\ IF aug THEN T[i][2] = lbl \o Nat2Bits(Extra(m, S), 16) ELSE T[i][2] = lbl
              /\ Canon(m, S0, l + 1, n, T[i][3][1], T, aug)
              /\ Canon(m, S \ S0, l + 1, n, T[i][3][2], T, aug)
IsDict(m, n, i, T, aug) == IF Keys(m) = {} THEN i = 0 ELSE Canon(m, Keys(m), 0, n, i, T, aug)

(* Does the tree exist at all: a cell holds 1023 bits and 4 references.    *)
RECURSIVE Fits(_, _, _, _, _)
Fits(m, S, o, n, aug) ==
  IF Cardinality(S) = 1
  THEN LET k == CHOOSE x \in S : TRUE
           v == m[k]
       IN  Len(HmLabel(Drop(k, o), n - o)) + Len(Payload(v, aug)) <= 1023
             /\ Len(v[2]) + (IF aug THEN XRefs(v[3]) ELSE 0) <= 4
  ELSE LET x  == CHOOSE x \in S : TRUE
           l  == SetLcp(S)
           S0 == {y \in S : BitAt(y, l + 1) = "0"}
       IN  /\ Len(HmLabel(SubSeq(x, o + 1, l), n - o)) + (IF aug THEN 16 ELSE 0) <= 1023
           /\ Fits(m, S0, l + 1, n, aug)
           /\ Fits(m, S \ S0, l + 1, n, aug)
(* Only long keys or values can fail to fit; the test for that is cheap.   *)
Storable(m, n, aug) ==
  \/ Keys(m) = {}
  \/ \A k \in Keys(m) : 13 + n + Len(m[k][1]) + 16 <= 1023 /\ (aug => Len(m[k][2]) <= 3)
  \/ Fits(m, Keys(m), 0, n, aug)

(*************************** order of the keys *****************************)
Flip(k) == (IF BitAt(k, 1) = "0" THEN "1" ELSE "0") \o Drop(k, 1)
OKey(k, signed) == IF signed THEN Flip(k) ELSE k
Lt(a, b, signed) == LexLt(OKey(a, signed), OKey(b, signed))
MinOf(S, signed) == CHOOSE x \in S : \A y \in S : ~Lt(y, x, signed)
MaxOf(S, signed) == CHOOSE x \in S : \A y \in S : ~Lt(x, y, signed)
Bound(S, max, signed) == IF max THEN MaxOf(S, signed) ELSE MinOf(S, signed)
Sorted(S, signed) == SortSeq(SetToSeq(S), LAMBDA a, b : Lt(a, b, signed))
InOrder(S, rev, signed) == LET s == Sorted(S, signed) IN IF rev THEN Reverse(s) ELSE s
(* the neighbours of a key, present or not *)
Beyond(S, k, max, incl, signed) ==
  {x \in S : IF max THEN Lt(k, x, signed) ELSE Lt(x, k, signed)} \cup (IF incl /\ k \in S THEN {k} ELSE {})
Nearest(S, k, max, incl, signed) ==
  LET C == Beyond(S, k, max, incl, signed)
  IN  IF C = {} THEN <<>> ELSE <<IF max THEN MinOf(C, signed) ELSE MaxOf(C, signed)>>

(***************************** operations **********************************)
CanSet(m, k, mode) == CASE mode = "set" -> TRUE
                        [] mode = "replace" -> k \in Keys(m)
                        [] mode = "add" -> k \notin Keys(m)

(* a list of <<key, value>>: the first of equal keys counts *)
RECURSIVE FromList(_, _)
FromList(items, j) == IF j = 0 THEN Empty ELSE Put(FromList(items, j - 1), items[j][1], items[j][2])
(* keys in the order of their type: negative numbers come first *)
SignAt(kind) == IF kind \in {"i8", "i16", "i32", "i64", "i128"} THEN 1 ELSE IF kind = "addr" THEN 4 ELSE 0
InType(kind, k) == LET p == SignAt(kind) IN
                   IF p = 0 THEN k ELSE Take(k, p - 1) \o (IF BitAt(k, p) = "0" THEN "1" ELSE "0") \o Drop(k, p)
TypeOrder(kind, items) == [j \in 1..Len(items) |-> <<InType(kind, items[j][1]), items[j][2]>>]
Ascending(items) == \A j \in 1..(Len(items) - 1) : ~LexLt(items[j + 1][1], items[j][1])
StrictlyAscending(items) == \A j \in 1..(Len(items) - 1) : LexLt(items[j][1], items[j + 1][1])
FirstOnly(items) == SelectSeq([j \in 1..Len(items) |-> <<items[j][1], items[j][2], j>>],
                              LAMBDA it : \A q \in 1..(it[3] - 1) : items[q][1] # it[1])
BuildMap(items) == LET f == FirstOnly(items) IN FromList(f, Len(f))
(* <<key, <<>> >> removes, <<key, <<value>> >> sets *)
RECURSIVE Modify(_, _, _)
Modify(m, items, j) ==
  IF j > Len(items) THEN m
  ELSE Modify(IF items[j][2] = <<>> THEN (IF items[j][1] \in Keys(m) THEN Del(m, items[j][1]) ELSE m)
              ELSE Put(m, items[j][1], items[j][2][1]), items, j + 1)

SplitOk(m, n, p) == Keys(m) # {} => (Len(p) < n /\ \A k \in Keys(m) : StartsWith(p, k))
SplitAt(m, p, b) == MRestrict(m, {k \in Keys(m) : BitAt(k, Len(p) + 1) = b})
(* Two dictionaries are siblings when the first bit in which their keys     *)
(* differ is the same for every pair of keys, and 0 on the left.           *)
Siblings(l, r) ==
  \/ Keys(l) = {} \/ Keys(r) = {}
  \/ LET U == Keys(l) \cup Keys(r)
         p == SetLcp(U)
     IN  /\ \A k \in Keys(l) : Len(k) > p /\ BitAt(k, p + 1) = "0"
         /\ \A k \in Keys(r) : Len(k) > p /\ BitAt(k, p + 1) = "1"
Union(l, r) == r @@ l

(****************************** gas ****************************************)
(* How many nodes lie on the path of a key: up to its leaf, or to the node  *)
(* whose label the key leaves.                                             *)
RECURSIVE Visit(_, _)
Visit(S, k) ==
  IF Cardinality(S) = 1 THEN 1
  ELSE LET l == SetLcp(S)
           x == CHOOSE x \in S : TRUE
       IN  IF LcpLen(x, k) < l THEN 1
           ELSE 1 + Visit({y \in S : BitAt(y, l + 1) = BitAt(k, l + 1)}, k)
Visited(m, k) == IF Keys(m) = {} THEN 0 ELSE Visit(Keys(m), k)
=============================================================================
