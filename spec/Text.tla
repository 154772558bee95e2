-------------------------------- MODULE Text ---------------------------------
(* Numbers and parts of text. *)
EXTENDS Bits, SequencesExt

Chars(s) == {BitAt(s, j) : j \in 1..Len(s)}
DecDigits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
HexLower == DecDigits \cup {"a", "b", "c", "d", "e", "f"}
HexUpper == {"A", "B", "C", "D", "E", "F"}
DigitVal == [c \in HexLower \cup HexUpper |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
     [] c = "8" -> 8 [] c = "9" -> 9 [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
     [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15]
Lower(s) == FoldLeft(LAMBDA a, j : a \o (IF BitAt(s, j) \in HexUpper THEN HexDigit[DigitVal[BitAt(s, j)]] ELSE BitAt(s, j)), "", [j \in 1..Len(s) |-> j])
IsDec(s) == s # "" /\ Chars(s) \subseteq DecDigits
IsHex(s) == s # "" /\ Chars(s) \subseteq (HexLower \cup HexUpper)
(* as many bits as needed, without leading zeros *)
DecBits(s) == LET w == 4 * Len(s) IN
  StripZ(FoldLeft(LAMBDA a, j : BAdd(BMul(a, "1010", w), Nat2Bits(DigitVal[BitAt(s, j)], 4), w), "", [j \in 1..Len(s) |-> j]))
HexBits(s) == StripZ(Unhex(Lower(s)))

NotNumber == "bad"
Signed(s) == IF s # "" /\ BitAt(s, 1) \in {"+", "-"} THEN <<BitAt(s, 1), Drop(s, 1)>> ELSE <<"", s>>
(* w-bit numbers *)
ParseUnsigned(s, w) == LET p == Signed(s) IN
  IF p[1] = "-" \/ ~IsDec(p[2]) THEN NotNumber ELSE LET b == DecBits(p[2]) IN IF Len(b) > w THEN NotNumber ELSE Widen(b, w)
ParseSigned(s, w) == LET p == Signed(s) IN
  IF ~IsDec(p[2]) THEN NotNumber
  ELSE LET b == DecBits(p[2]) IN
       IF p[1] = "-" THEN (IF Len(b) < w \/ b = "1" \o Rep("0", w - 1) THEN BSub("", b, w) ELSE NotNumber)
       ELSE IF Len(b) < w THEN Widen(b, w) ELSE NotNumber
ParseHexNum(s, w) == LET p == Signed(s) IN
  IF p[1] = "-" \/ ~IsHex(p[2]) THEN NotNumber ELSE LET b == HexBits(p[2]) IN IF Len(b) > w THEN NotNumber ELSE Widen(b, w)
ShowSigned(b) == IF BitAt(b, 1) = "0" THEN BDec(b) ELSE "-" \o BDec(BSub("", b, Len(b)))

RECURSIVE SplitBy(_, _)
SplitBy(s, c) == LET k == FirstIdx(s, c) IN IF k = 0 THEN <<s>> ELSE <<Take(s, k - 1)>> \o SplitBy(Drop(s, k), c)
=============================================================================
