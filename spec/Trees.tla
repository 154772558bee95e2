-------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* Reading whatever tree of cells is there.  A table T of cells has rows   *)
(* <<exotic, bits, refs>>.  An entry that cannot be read is <<"err">> and  *)
(* ends a list.                                                            *)
(***************************************************************************)
EXTENDS Bits, SequencesExt

Err == <<"err">>
Ends(q) == q # <<>> /\ q[Len(q)] = Err

(* hml_short$0 {n} unary, hml_long$10, hml_same$11, for at most m bits: <<label, bits used>> or Err *)
ReadLabelIn(b, k, m) ==
  IF k = 0 /\ b = "" THEN <<"", 0>>
  ELSE IF b = "" THEN Err
  ELSE IF BitAt(b, 1) = "0" THEN
         LET z == FirstIdx(Drop(b, 1), "0")
             n == z - 1
         IN  IF z = 0 \/ n > m \/ Len(b) < 1 + z + n THEN Err ELSE <<SubSeq(b, 2 + z, 1 + z + n), 1 + z + n>>
  ELSE IF Len(b) < 2 THEN Err
  ELSE IF BitAt(b, 2) = "0" THEN
         IF Len(b) < 2 + k THEN Err
         ELSE LET n == Bits2Nat(SubSeq(b, 3, 2 + k)) IN
              IF n > m \/ Len(b) < 2 + k + n THEN Err ELSE <<SubSeq(b, 3 + k, 2 + k + n), 2 + k + n>>
  ELSE IF Len(b) < 3 + k THEN Err
       ELSE LET n == Bits2Nat(SubSeq(b, 4, 3 + k)) IN
            IF n > m THEN Err ELSE <<Rep(BitAt(b, 3), n), 3 + k>>
ReadLabel(b, m) == ReadLabelIn(b, BitLen(m), m)

(* the entries of a dictionary with keys of n bits, in order: <<key, bits, refs>> *)
RECURSIVE Walk(_, _, _, _)
Walk(T, c, n, pre) ==
  IF T[c][1] = 1 THEN <<Err>>
  ELSE LET l == ReadLabel(T[c][2], n - Len(pre)) IN
       IF l = Err THEN <<Err>>
       ELSE LET key == pre \o l[1]
                refs == T[c][3]
            IN  IF Len(key) = n THEN <<<<key, Drop(T[c][2], l[2]), refs>>>>
                ELSE IF Len(refs) < 2 THEN <<Err>>
                ELSE LET a == Walk(T, refs[1], n, key \o "0") IN
                     IF Ends(a) THEN a ELSE a \o Walk(T, refs[2], n, key \o "1")
Entries(T, c, n) == IF c = 0 THEN <<>> ELSE Walk(T, c, n, "")

(* the value of one key *)
RECURSIVE Find(_, _, _, _)
Find(T, c, n, key) ==
  IF T[c][1] = 1 THEN Err
  ELSE LET l == ReadLabel(T[c][2], n) IN
       IF l = Err THEN Err
       ELSE IF ~StartsWith(l[1], key) THEN <<"none">>
       ELSE LET rest == Drop(key, Len(l[1])) IN
            IF rest = "" THEN <<"ok", Drop(T[c][2], l[2]), T[c][3]>>
            ELSE IF Len(T[c][3]) < 2 THEN Err
            ELSE Find(T, T[c][3][IF BitAt(rest, 1) = "0" THEN 1 ELSE 2], n - Len(l[1]) - 1, Drop(rest, 1))
Lookup(T, c, key) == IF c = 0 THEN <<"none">> ELSE Find(T, c, Len(key), key)
=============================================================================
