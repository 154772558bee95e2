-------------------------------- MODULE Damage --------------------------------
(***************************************************************************)
(* What can be read of any tree of cells that is taken for a dictionary    *)
(* with keys of n bits: a list, in the order of the keys, of entries       *)
(* (gap = FALSE, a key and its value) and gaps (a prefix under which       *)
(* nothing can be read: a special cell, a label that is malformed or too   *)
(* long, a fork without branches, a value without its extra).              *)
(***************************************************************************)
EXTENDS Dict, Trees

Gap(p) == [gap |-> TRUE, k |-> p, v |-> <<>>]
Ent(k, v) == [gap |-> FALSE, k |-> k, v |-> v]

(* the extra at the front of bits b and references R: <<x>>, or <<>> *)
XAt(T, b, R) ==
  IF Len(b) < 16 THEN <<>>
  ELSE LET x == Bits2Nat(Take(b, 16)) IN
       IF x % 2 = 0 THEN <<x>>
       ELSE IF R = <<>> THEN <<>>
       ELSE LET c == T[R[1]] IN
            IF c[1] = 1 \/ Len(c[2]) < 16 THEN <<>>
            ELSE IF Take(c[2], 16) = Nat2Bits(65535 - x, 16) THEN <<x>> ELSE <<>>

RECURSIVE ItemsAt(_, _, _, _, _)
ItemsAt(T, c, n, aug, pre) ==
  IF T[c][1] = 1 THEN <<Gap(pre)>>
  ELSE LET l == ReadLabel(T[c][2], n - Len(pre)) IN
       IF l = Err THEN <<Gap(pre)>>
       ELSE LET key == pre \o l[1]
                b == Drop(T[c][2], l[2])
                R == T[c][3]
            IN  IF Len(key) = n
                THEN IF ~aug THEN <<Ent(key, <<b, R>>)>>
                     ELSE LET x == XAt(T, b, R) IN
                          IF x = <<>> THEN <<Gap(key)>>
                          ELSE <<Ent(key, <<Drop(b, 16), Drop(R, x[1] % 2), x[1]>>)>>
                ELSE IF Len(R) < 2 THEN <<Gap(key)>>
                ELSE ItemsAt(T, R[1], n, aug, key \o "0") \o ItemsAt(T, R[2], n, aug, key \o "1")
Items(T, c, n, aug) == IF c = 0 THEN <<>> ELSE ItemsAt(T, c, n, aug, "")

Ents(I) == LET S == {j \in 1..Len(I) : ~I[j].gap}
           IN  [k \in {I[j].k : j \in S} |-> I[CHOOSE j \in S : I[j].k = k].v]
Gaps(I) == {I[j].k : j \in {q \in 1..Len(I) : I[q].gap}}
Hidden(G, k) == \E g \in G : StartsWith(g, k)
Whole(I) == \A j \in 1..Len(I) : ~I[j].gap

(* does every node of an augmented tree have its extra *)
RECURSIVE AllX(_, _, _, _)
AllX(T, c, n, o) ==
  LET l == ReadLabel(T[c][2], n - o)
      at == o + Len(l[1])
      R == T[c][3]
  IN  IF at = n THEN XAt(T, Drop(T[c][2], l[2]), R) # <<>>
      ELSE /\ XAt(T, Drop(T[c][2], l[2]), Drop(R, 2)) # <<>>
           /\ AllX(T, R[1], n, at + 1) /\ AllX(T, R[2], n, at + 1)
(* the extra of the root *)
TopX(T, c, n) ==
  c = 0 \/ /\ T[c][1] = 0
           /\ LET l == ReadLabel(T[c][2], n) IN
              /\ l # Err
              /\ IF Len(l[1]) = n THEN XAt(T, Drop(T[c][2], l[2]), T[c][3]) # <<>>
                 ELSE Len(T[c][3]) >= 2 /\ XAt(T, Drop(T[c][2], l[2]), Drop(T[c][3], 2)) # <<>>
Sound(T, c, n, aug) == LET I == Items(T, c, n, aug) IN Whole(I) /\ (aug /\ c # 0 => AllX(T, c, n, 0))

(* signed keys with a leading one come first *)
Arrange(I, rev, signed) ==
  LET J == IF ~signed \/ (Len(I) > 0 /\ I[1].k = "") THEN I
           ELSE SelectSeq(I, LAMBDA it : BitAt(it.k, 1) = "1") \o SelectSeq(I, LAMBDA it : BitAt(it.k, 1) = "0")
  IN  IF rev THEN Reverse(J) ELSE J

(* up to the first gap *)
FirstGap(J) == SelectInSeq(J, LAMBDA it : it.gap)
Readable(J) == LET q == FirstGap(J) IN IF q = 0 THEN J ELSE Take(J, q - 1)

(* what comes first beyond a key *)
TK(k, signed) == IF signed /\ k # "" THEN Flip(k) ELSE k
End(p, n, max) == p \o Rep(IF max THEN "1" ELSE "0", n - Len(p))
IsBeyond(it, k, n, max, incl, signed) ==
  LET a == TK(k, signed)
      b == End(TK(it.k, signed), n, max)
  IN  (IF max THEN LexLt(a, b) ELSE LexLt(b, a)) \/ (incl /\ StartsWith(it.k, k))
Next1(I, k, n, max, incl, signed) ==
  LET C == SelectSeq(Arrange(I, ~max, signed), LAMBDA it : IsBeyond(it, k, n, max, incl, signed))
  IN  Take(C, IF C = <<>> THEN 0 ELSE 1)

(* the branch beside the one of key k: the prefix of what is rebuilt when k goes *)
Beside(I, k) ==
  LET L == {LcpLen(I[j].k, k) : j \in {q \in 1..Len(I) : I[q].k # k}}
      m == CHOOSE a \in L : \A b \in L : a >= b
  IN  Take(k, m) \o (IF BitAt(k, m + 1) = "0" THEN "1" ELSE "0")
=============================================================================
