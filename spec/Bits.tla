-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bit strings: TLA+ strings over "0" and "1", and hex strings.            *)
(*                                                                         *)
(* TLC's integers are 32 bits wide, so every larger number of the code is  *)
(* written here as the bit string of its binary notation.                  *)
(*                                                                         *)
(* The definitions below are the meaning of the operators.  java/VBits.java *)
(* evaluates the same operators faster; BitsCheck.tla has TLC compare the  *)
(* two exhaustively on a small domain (the primed names there are the      *)
(* definitions, the plain ones the accelerators).                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

BitAt(s, i) == SubSeq(s, i, i)                 \* 1-based
Drop(s, n)  == SubSeq(s, n + 1, Len(s))
Take(s, n)  == SubSeq(s, 1, n)
Min2(a, b)  == IF a < b THEN a ELSE b
Max2(a, b)  == IF a > b THEN a ELSE b

RECURSIVE RepD(_, _)
RepD(c, k) == IF k <= 0 THEN "" ELSE c \o RepD(c, k - 1)
Rep(c, k) == RepD(c, k)

LcpLenD(a, b) ==
  LET m == Min2(Len(a), Len(b)) IN
  CHOOSE n \in 0..m : /\ Take(a, n) = Take(b, n)
                      /\ n < m => BitAt(a, n + 1) # BitAt(b, n + 1)
LcpLen(a, b) == LcpLenD(a, b)
StartsWith(p, s) == Len(p) <= Len(s) /\ Take(s, Len(p)) = p

UniformD(s) == \A i \in 1..Len(s) : BitAt(s, i) = BitAt(s, 1)
Uniform(s) == UniformD(s)

(* lexicographic order; a proper prefix is smaller *)
LexLtD(a, b) ==
  LET n == LcpLenD(a, b) IN
  \/ n = Len(a) /\ Len(a) < Len(b)
  \/ n < Len(a) /\ n < Len(b) /\ BitAt(a, n + 1) = "0" /\ BitAt(b, n + 1) = "1"
LexLt(a, b) == LexLtD(a, b)

RECURSIVE Nat2BitsD(_, _)
Nat2BitsD(k, w) == IF w = 0 THEN "" ELSE Nat2BitsD(k \div 2, w - 1) \o (IF k % 2 = 1 THEN "1" ELSE "0")
Nat2Bits(k, w) == Nat2BitsD(k, w)
RECURSIVE Bits2NatD(_)
Bits2NatD(s) == IF s = "" THEN 0 ELSE 2 * Bits2NatD(Take(s, Len(s) - 1)) + (IF BitAt(s, Len(s)) = "1" THEN 1 ELSE 0)
Bits2Nat(s) == Bits2NatD(s)

HexDigit == [d \in 0..15 |-> SubSeq("0123456789abcdef", d + 1, d + 1)]
RECURSIVE HexD(_)
HexD(s) == IF s = "" THEN "" ELSE HexDigit[Bits2NatD(Take(s, 4))] \o HexD(Drop(s, 4))
Hex(s) == HexD(s)
RECURSIVE UnhexD(_)
UnhexD(h) == IF h = "" THEN ""
             ELSE Nat2BitsD(CHOOSE d \in 0..15 : HexDigit[d] = Take(h, 1), 4) \o UnhexD(Drop(h, 1))
Unhex(h) == UnhexD(h)

(* arithmetic on naturals in binary notation, truncated to w bits *)
RECURSIVE AddC(_, _, _, _)
AddC(a, b, w, c) ==
  IF w = 0 THEN ""
  ELSE LET x == IF a # "" /\ BitAt(a, Len(a)) = "1" THEN 1 ELSE 0
           y == IF b # "" /\ BitAt(b, Len(b)) = "1" THEN 1 ELSE 0
           t == x + y + c
       IN  AddC(IF a = "" THEN "" ELSE Take(a, Len(a) - 1), IF b = "" THEN "" ELSE Take(b, Len(b) - 1), w - 1, t \div 2)
           \o (IF t % 2 = 1 THEN "1" ELSE "0")
BAddD(a, b, w) == AddC(a, b, w, 0)
BAdd(a, b, w) == BAddD(a, b, w)
BNotD(a) == LET RECURSIVE f(_)
                f(s) == IF s = "" THEN "" ELSE (IF BitAt(s, 1) = "0" THEN "1" ELSE "0") \o f(Drop(s, 1))
            IN f(a)
BNot(a) == BNotD(a)
Widen(a, w) == IF Len(a) >= w THEN Drop(a, Len(a) - w) ELSE RepD("0", w - Len(a)) \o a
BSubD(a, b, w) == AddC(Widen(a, w), BNotD(Widen(b, w)), w, 1)
BSub(a, b, w) == BSubD(a, b, w)
BXorD(a, b) == LET RECURSIVE f(_, _)
                   f(s, t) == IF s = "" THEN "" ELSE (IF BitAt(s, 1) = BitAt(t, 1) THEN "0" ELSE "1") \o f(Drop(s, 1), Drop(t, 1))
               IN f(a, b)
BXor(a, b) == BXorD(a, b)
StripZ(a) == LET i == {j \in 1..Len(a) : BitAt(a, j) = "1"} IN
             IF i = {} THEN "" ELSE Drop(a, (CHOOSE j \in i : \A k \in i : j <= k) - 1)
BCmpD(a, b) == LET x == StripZ(a) y == StripZ(b) IN
               IF x = y THEN 0 ELSE IF Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LexLtD(x, y)) THEN -1 ELSE 1
BCmp(a, b) == BCmpD(a, b)
RECURSIVE BMulD(_, _, _)
BMulD(a, b, w) == IF b = "" THEN RepD("0", w)
                  ELSE BAddD(BMulD(a, Take(b, Len(b) - 1), w) \o "0", IF BitAt(b, Len(b)) = "1" THEN a ELSE "", w)
BMul(a, b, w) == BMulD(a, b, w)
(* long division, most significant bit first *)
RECURSIVE DivModD(_, _)
DivModD(a, b) ==
  IF a = "" THEN <<"", "">>
  ELSE LET p == DivModD(Take(a, Len(a) - 1), b)
           r == p[2] \o BitAt(a, Len(a))
       IN  IF BCmpD(r, b) >= 0 THEN <<p[1] \o "1", StripZ(BSubD(r, b, Len(r)))>> ELSE <<p[1] \o "0", StripZ(r)>>
BDivD(a, b, w) == Widen(DivModD(a, b)[1], w)
BDiv(a, b, w) == BDivD(a, b, w)
BModD(a, b, w) == Widen(DivModD(a, b)[2], w)
BMod(a, b, w) == BModD(a, b, w)

FirstIdxD(s, c) == IF \E i \in 1..Len(s) : BitAt(s, i) = c
                   THEN CHOOSE i \in 1..Len(s) : BitAt(s, i) = c /\ \A j \in 1..(i - 1) : BitAt(s, j) # c ELSE 0
FirstIdx(s, c) == FirstIdxD(s, c)
LastIdxD(s, c) == IF \E i \in 1..Len(s) : BitAt(s, i) = c
                  THEN CHOOSE i \in 1..Len(s) : BitAt(s, i) = c /\ \A j \in (i + 1)..Len(s) : BitAt(s, j) # c ELSE 0
LastIdx(s, c) == LastIdxD(s, c)

(* number of bits needed to write k *)
BitLen(k) == IF k = 0 THEN 0 ELSE CHOOSE w \in 1..31 : k \div (2^(w-1)) = 1
CeilDiv(a, b) == (a + b - 1) \div b
PadTo(s, m) == s \o Rep("0", (m - (Len(s) % m)) % m)

(* Uninterpreted in TLA+: fixed functions supplied by the JDK. *)
Sha256(hex) == CHOOSE h \in STRING : TRUE
Sha512(hex) == CHOOSE h \in STRING : TRUE
Crc32cLE(hex) == CHOOSE h \in STRING : TRUE
Crc16(hex) == CHOOSE h \in STRING : TRUE
BDec(a) == CHOOSE h \in STRING : TRUE
=============================================================================
