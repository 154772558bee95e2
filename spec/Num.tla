-------------------------------- MODULE Num ----------------------------------
(***************************************************************************)
(* The number types.  A value is a bit string of the width of the integer  *)
(* it is kept in; it is valid when it is in the range of the type.         *)
(* Variable-length numbers are stored as the number of bytes, and as many  *)
(* bytes as are needed.                                                    *)
(***************************************************************************)
EXTENDS Text

VarT(len, max, in) == [var |-> TRUE, len |-> len, bits |-> 8 * max, in |-> in, low |-> ""]
FixT(bits, in, low) == [var |-> FALSE, len |-> 0, bits |-> bits, in |-> in, low |-> low]
Types == [v24 |-> VarT(2, 3, 32), v56 |-> VarT(3, 7, 64), v120 |-> VarT(4, 15, 128), v248 |-> VarT(5, 31, 256),
          u9 |-> FixT(9, 16, ""), u12 |-> FixT(12, 16, ""), u15 |-> FixT(15, 16, ""), split |-> FixT(5, 8, "1")]

MostOf(t) == IF t = "split" THEN "11110" ELSE Rep("1", Types[t].bits)
InRange(t, v) == BCmp(v, MostOf(t)) <= 0 /\ BCmp(v, Types[t].low) >= 0
Bytes(v) == CeilDiv(Len(StripZ(v)), 8)
Kept(t, v) == Widen(v, Types[t].in)

(* the encoding of a valid value *)
Stored(t, v) == IF Types[t].var THEN Nat2Bits(Bytes(v), Types[t].len) \o Widen(StripZ(v), 8 * Bytes(v)) ELSE Widen(StripZ(v), Types[t].bits)
(* <<value, bits used>> of the number at the beginning of a bit string; <<>> when there is none *)
Loaded(t, b) ==
  LET T == Types[t]
      n == IF T.var THEN 8 * Bits2Nat(Take(b, T.len)) ELSE T.bits
  IN  IF Len(b) < T.len THEN <<>> ELSE IF Len(b) < T.len + n THEN <<>>
      ELSE LET v == SubSeq(b, T.len + 1, T.len + n) IN
           IF InRange(t, v) THEN <<Kept(t, StripZ(v)), T.len + n>> ELSE <<>>

(* exact results, wide enough for every operation; "-" is below zero, "x" is not defined *)
Exact(o, a, b) ==
  LET w == Len(a) + Len(b) + 1 IN
  CASE o = "add" -> StripZ(BAdd(a, b, w))
    [] o = "sub" -> IF BCmp(a, b) < 0 THEN "-" ELSE StripZ(BSub(a, b, w))
    [] o = "mul" -> StripZ(BMul(a, b, w))
    [] o = "div" -> IF StripZ(b) = "" THEN "x" ELSE StripZ(BDiv(a, b, w))
    [] o = "rem" -> IF StripZ(b) = "" THEN "x" ELSE StripZ(BMod(a, b, w))
IsNumber(v) == v # "-" /\ v # "x"
Checked(t, v) == IF IsNumber(v) THEN (IF BCmp(v, MostOf(t)) <= 0 THEN Kept(t, v) ELSE "none") ELSE "none"
Saturated(t, v) == IF v = "-" THEN Kept(t, "") ELSE IF BCmp(v, MostOf(t)) <= 0 THEN Kept(t, v) ELSE Kept(t, MostOf(t))

(* digits of other bases *)
AllDigits == "0123456789abcdefghijklmnopqrstuvwxyz"
AllUpper == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
IsDigit(c, r) == \E j \in 1..r : BitAt(AllDigits, j) = c \/ BitAt(AllUpper, j) = c
DigitOf(c) == (CHOOSE j \in 1..36 : BitAt(AllDigits, j) = c \/ BitAt(AllUpper, j) = c) - 1
ParseRadix(s, r, w) ==
  LET d == IF s # "" /\ BitAt(s, 1) = "+" THEN Drop(s, 1) ELSE s
      big == 6 * Len(d) + 8
  IN  IF d = "" \/ \E j \in 1..Len(d) : ~IsDigit(BitAt(d, j), r) THEN NotNumber
      ELSE LET b == StripZ(FoldLeft(LAMBDA a, j : BAdd(BMul(a, Nat2Bits(r, 6), big), Nat2Bits(DigitOf(BitAt(d, j)), 6), big), "", [j \in 1..Len(d) |-> j]))
           IN  IF Len(b) > w THEN NotNumber ELSE b

(* a number in text, of a type *)
FromText(t, s) == LET v == IF t = "v248" THEN ParseRadix(s, 10, 248) ELSE ParseUnsigned(s, Types[t].in) IN
  IF v = NotNumber THEN "none" ELSE IF InRange(t, v) THEN Kept(t, StripZ(v)) ELSE "none"
ShowHex(v) == LET s == StripZ(v) IN IF s = "" THEN "0" ELSE Hex(Widen(s, 4 * CeilDiv(Len(s), 4)))
ShowBin(v) == LET s == StripZ(v) IN IF s = "" THEN "0" ELSE s
Upper(s) == FoldLeft(LAMBDA a, j : a \o BitAt(AllUpper, DigitOf(BitAt(s, j)) + 1), "", [j \in 1..Len(s) |-> j])
ShiftR(v, n) == Rep("0", n) \o Take(v, Len(v) - n)
ShiftL(v, n) == Drop(v, n) \o Rep("0", n)
=============================================================================
