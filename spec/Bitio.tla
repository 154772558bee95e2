-------------------------------- MODULE Bitio --------------------------------
(***************************************************************************)
(* Builders and slices of cells.                                           *)
(*                                                                         *)
(* A builder is [x, b, r]: an exotic flag, a string of bits (up to 1023)   *)
(* and a sequence of references (up to 4).  A slice is a window [c, s, e,  *)
(* rs, re] on cell c of a table T of rows <<exotic, bits, refs>>.          *)
(***************************************************************************)
EXTENDS Bits

MaxB == 1023
MaxR == 4
NewB == [x |-> 0, b |-> "", r |-> <<>>]
NewS == [c |-> 0, s |-> 0, e |-> 0, rs |-> 0, re |-> 0]

(******************************* numbers ***********************************)
(* An integer is <<sign, magnitude>>, the magnitude without leading zeros.  *)
UBits(v, n) == IF n <= Len(v) THEN Drop(v, Len(v) - n) ELSE Rep("0", n - Len(v)) \o v
RBits(v, n) == IF n <= Len(v) THEN Take(v, n) ELSE Rep("0", n - Len(v)) \o v
IBits(x, n) == IF x[1] = "+" THEN UBits(x[2], n) ELSE BSub("0", x[2], n)
PowerOf2(m) == FirstIdx(m, "1") = LastIdx(m, "1")
(* the fewest bits that hold x *)
BitSize(x, signed) ==
  IF ~signed \/ x[2] = "" THEN Len(x[2])
  ELSE IF x[1] = "+" THEN Len(x[2]) + 1
  ELSE IF PowerOf2(x[2]) THEN Len(x[2]) ELSE Len(x[2]) + 1
(* two's complement; no bits are zero *)
SInt(v) == IF v # "" /\ BitAt(v, 1) = "1" THEN <<"-", StripZ(BSub("1" \o Rep("0", Len(v)), v, Len(v) + 1))>> ELSE <<"+", StripZ(v)>>

(******************************** builders *********************************)
Room(b, bits, refs) == Len(b.b) + bits <= MaxB /\ Len(b.r) + refs <= MaxR
App(b, v, refs) == [b EXCEPT !.b = @ \o v, !.r = @ \o refs]

Hex_(v) == IF Len(v) % 4 = 0 THEN Hex(v) ELSE Hex(PadTo(v \o "1", 4)) \o "_"
(* what a text form with n hex digits and perhaps a completion tag denotes *)
Unhex_(h, tag) == LET v == Unhex(h) k == LastIdx(v, "1") IN
                  IF ~tag THEN v ELSE IF k = 0 THEN "" ELSE Take(v, k - 1)

(* length, references, data bytes, hashes of the references *)
BOrd(a, b, hash) ==
  IF Len(a.b) # Len(b.b) THEN (IF Len(a.b) < Len(b.b) THEN -1 ELSE 1)
  ELSE IF Len(a.r) # Len(b.r) THEN (IF Len(a.r) < Len(b.r) THEN -1 ELSE 1)
  ELSE IF a.b # b.b THEN (IF LexLt(a.b, b.b) THEN -1 ELSE 1)
  ELSE LET d == {i \in 1..Len(a.r) : hash[a.r[i]] # hash[b.r[i]]}
       IN  IF d = {} THEN 0
           ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j
                IN  IF LexLt(hash[a.r[i]], hash[b.r[i]]) THEN -1 ELSE 1

(********************************* slices **********************************)
CBits(T, c) == IF c = 0 THEN "" ELSE T[c][2]
CRefs(T, c) == IF c = 0 THEN <<>> ELSE T[c][3]
SBits(T, w) == SubSeq(CBits(T, w.c), w.s + 1, w.e)
SRefs(T, w) == SubSeq(CRefs(T, w.c), w.rs + 1, w.re)
SLen(w) == w.e - w.s
SRef(w) == w.re - w.rs
Has(w, n, r) == n <= SLen(w) /\ r <= SRef(w)
Full(T, c) == [c |-> c, s |-> 0, e |-> Len(T[c][2]), rs |-> 0, re |-> Len(T[c][3])]
SkipFirst(w, n, r) == [w EXCEPT !.s = @ + n, !.rs = @ + r]
OnlyFirst(w, n, r) == [w EXCEPT !.e = w.s + n, !.re = w.rs + r]
SkipLast(w, n, r) == [w EXCEPT !.e = @ - n, !.re = @ - r]
OnlyLast(w, n, r) == [w EXCEPT !.s = w.e - n, !.rs = w.re - r]
Prefix(w, n, r) == OnlyFirst(w, Min2(n, SLen(w)), Min2(r, SRef(w)))
(* a range taken from another cell, cut to what this cell has *)
Cut(T, w, c) == LET e == Min2(w.e, Len(T[c][2])) re == Min2(w.re, Len(T[c][3]))
                IN  [c |-> c, s |-> Min2(w.s, e), e |-> e, rs |-> Min2(w.rs, re), re |-> re]

Cmp(a, b) == IF a = b THEN 0 ELSE IF LexLt(a, b) THEN -1 ELSE 1
Leading(v, c) == LET i == FirstIdx(v, IF c = "1" THEN "0" ELSE "1") IN IF i = 0 THEN Len(v) ELSE i - 1
Trailing(v, c) == LET i == LastIdx(v, IF c = "1" THEN "0" ELSE "1") IN Len(v) - i
Suffix(a, b) == Len(a) <= Len(b) /\ Drop(b, Len(b) - Len(a)) = a
=============================================================================
