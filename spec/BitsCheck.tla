----------------------------- MODULE BitsCheck -----------------------------
(* TLC: the accelerated operators of Bits agree with their definitions.    *)
EXTENDS Bits
RECURSIVE AllOf(_)
AllOf(n) == IF n = 0 THEN {""} ELSE LET p == AllOf(n - 1) IN {s \o "0" : s \in p} \cup {s \o "1" : s \in p}
Upto(n) == UNION {AllOf(k) : k \in 0..n}
ASSUME Sha256("") = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
ASSUME Sha512("00") = "b8244d028981d693af7b456af8efa4cad63d282e19ff14942c246e50d9351d22704a802a71c3580b6370de4ceb293c324a8423342557d4e5c38438f0e36910ee"
ASSUME Crc32cLE("313233343536373839") = "839206e3"
ASSUME Crc16("313233343536373839") = "31c3"
ASSUME BDec("1100100") = "100" /\ BDec("") = "0"
VARIABLE a
Init == a \in Upto(5)
Next == FALSE /\ UNCHANGED a
Agree ==
  /\ \A k \in 0..6 : Rep("1", k) = RepD("1", k) /\ Rep(a, k) = RepD(a, k)
  /\ Uniform(a) = UniformD(a)
  /\ Bits2Nat(a) = Bits2NatD(a)
  /\ \A w \in 0..7 : Nat2Bits(Bits2NatD(a), w) = Nat2BitsD(Bits2NatD(a), w)
  /\ Hex(PadTo(a, 4)) = HexD(PadTo(a, 4)) /\ Unhex(HexD(PadTo(a, 4))) = PadTo(a, 4)
  /\ BNot(a) = BNotD(a)
  /\ FirstIdx(a, "1") = FirstIdxD(a, "1") /\ LastIdx(a, "0") = LastIdxD(a, "0")
  /\ \A b \in Upto(5) :
       /\ LcpLen(a, b) = LcpLenD(a, b)
       /\ LexLt(a, b) = LexLtD(a, b)
       /\ BCmp(a, b) = BCmpD(a, b)
       /\ \A w \in {0, 3, 6} : /\ BAdd(a, b, w) = BAddD(a, b, w)
                               /\ BSub(a, b, w) = BSubD(a, b, w)
                               /\ BMul(a, b, w) = BMulD(a, b, w)
                               /\ StripZ(b) # "" => BDiv(a, b, w) = BDivD(a, b, w) /\ BMod(a, b, w) = BModD(a, b, w)
       /\ Len(a) = Len(b) => BXor(a, b) = BXorD(a, b)
=============================================================================
