-------------------------------- MODULE Cells --------------------------------
(***************************************************************************)
(* Representation of cells: types, level masks, depths and hashes.         *)
(*                                                                         *)
(* A cell is a record [x, b, m, h, d, k, n, s]: exotic flag, data bits,    *)
(* level mask, hash and depth at levels 0..3 (as functions), indices of    *)
(* its references in a table, and totals of cells and bits of the tree.    *)
(*                                                                         *)
(* Levels are those of the Everscale cell representation: the descriptor   *)
(* hashed at level l carries the mask with all levels up to l.             *)
(***************************************************************************)
EXTENDS Bits

Ones(m) == (m % 2) + ((m \div 2) % 2) + ((m \div 4) % 2)
Low(m, l) == m % (2^l)
Sig(m, l) == l = 0 \/ (m \div 2^(l - 1)) % 2 = 1
Or3(a, b) == LET o(i) == IF Sig(a, i) \/ Sig(b, i) THEN 2^(i - 1) ELSE 0 IN o(1) + o(2) + o(3)

Types == {"ordinary", "pruned", "library", "proof", "update"}
TypeOf(x, b) ==
  IF x = 0 THEN "ordinary"
  ELSE IF Len(b) < 8 THEN "bad"
  ELSE LET t == Bits2Nat(Take(b, 8)) IN
       IF t = 1 THEN "pruned" ELSE IF t = 2 THEN "library" ELSE IF t = 3 THEN "proof" ELSE IF t = 4 THEN "update" ELSE "bad"

HexByte(k) == Hex(Nat2Bits(k, 8))
Hex16(k) == Hex(Nat2Bits(k, 16))
DataHex(b) == IF Len(b) % 8 = 0 THEN Hex(b) ELSE Hex(PadTo(b \o "1", 8))
D1(x, m, refs) == refs + 8 * x + 32 * m
D2(b) == (Len(b) \div 8) + CeilDiv(Len(b), 8)
Cap == 1000000000
Capped(a) == IF a > Cap THEN Cap ELSE a

NoCell == [x |-> 2]
Bad(c) == c.x = 2

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
RECURSIVE SumC(_)
SumC(s) == IF s = <<>> THEN 0 ELSE Capped(Head(s) + SumC(Tail(s)))
RECURSIVE MaxOf(_)
MaxOf(s) == IF s = <<>> THEN 0 ELSE Max2(Head(s), MaxOf(Tail(s)))
RECURSIVE OrAll3(_)
OrAll3(s) == IF s = <<>> THEN 0 ELSE Or3(Head(s), OrAll3(Tail(s)))

(* what the reference list and the type of a cell say about its layout *)
MaskOf(t, b, kids) ==
  LET below == OrAll3([j \in 1..Len(kids) |-> kids[j].m]) IN
  IF t = "ordinary" THEN below
  ELSE IF t = "pruned" THEN Bits2Nat(SubSeq(b, 9, 16))
  ELSE IF t = "library" THEN 0
  ELSE below \div 2
LayoutOk(t, b, kids) ==
  CASE t = "ordinary" -> TRUE
    [] t = "pruned" -> /\ Len(b) >= 16
                       /\ Bits2Nat(SubSeq(b, 9, 16)) \in 1..7
                       /\ Len(b) = 16 + 272 * Ones(Bits2Nat(SubSeq(b, 9, 16)))
                       /\ kids = <<>>
    [] t = "library" -> Len(b) = 264 /\ kids = <<>>
    [] t = "proof" -> Len(b) = 280 /\ Len(kids) = 1
    [] t = "update" -> Len(b) = 552 /\ Len(kids) = 2
    [] OTHER -> FALSE

(* the hash and depth that a pruned branch stores *)
Stored(b, m, j) == <<Hex(SubSeq(b, 17 + 256 * j, 16 + 256 * (j + 1))),
                     Bits2Nat(SubSeq(b, 17 + 256 * Ones(m) + 16 * j, 32 + 256 * Ones(m) + 16 * j))>>

Digest(x, b, m, first, body, kids, l) ==
  Sha256(HexByte(D1(x, m, Len(kids))) \o HexByte(D2(b)) \o (IF first THEN DataHex(b) ELSE body)
         \o Join([j \in 1..Len(kids) |-> Hex16(kids[j].d[l])]) \o Join([j \in 1..Len(kids) |-> kids[j].h[l]]))

(* The cell with this data and these references, or NoCell. *)
Make(x, b, refs, kids) ==
  LET t == TypeOf(x, b) IN
  IF ~LayoutOk(t, b, kids) THEN NoCell
  ELSE
    LET m == MaskOf(t, b, kids)
        up(l) == Min2(3, IF t \in {"proof", "update"} THEN l + 1 ELSE l)
        dep(l) == MaxOf([j \in 1..Len(kids) |-> kids[j].d[up(l)] + 1])
        own == Digest(x, b, m, TRUE, "", <<>>, 0)
        at(l) == LET j == Ones(Low(m, l)) IN IF j = Ones(m) THEN <<own, 0>> ELSE Stored(b, m, j)
        h0 == Digest(x, b, 0, TRUE, "", kids, up(0))
        h1 == IF Sig(m, 1) THEN Digest(x, b, 1, FALSE, h0, kids, up(1)) ELSE h0
        h2 == IF Sig(m, 2) THEN Digest(x, b, 3, FALSE, h1, kids, up(2)) ELSE h1
        h3 == IF Sig(m, 3) THEN Digest(x, b, 7, FALSE, h2, kids, up(3)) ELSE h2
        d0 == dep(0)
        d1 == IF Sig(m, 1) THEN dep(1) ELSE d0
        d2 == IF Sig(m, 2) THEN dep(2) ELSE d1
        d3 == IF Sig(m, 3) THEN dep(3) ELSE d2
        all == IF t = "pruned" THEN <<at(0), at(1), at(2), at(3)>> ELSE <<<<h0, d0>>, <<h1, d1>>, <<h2, d2>>, <<h3, d3>>>>
    IN  IF t # "pruned" /\ \E l \in 0..3 : Sig(m, l) /\ dep(l) > 65535 THEN NoCell
        ELSE [x |-> x, b |-> b, m |-> m, h |-> TLCEval([l \in 0..3 |-> all[l + 1][1]]), d |-> TLCEval([l \in 0..3 |-> all[l + 1][2]]), k |-> TLCEval(refs),
              n |-> Capped(1 + SumC([j \in 1..Len(kids) |-> kids[j].n])),
              s |-> Capped(Len(b) + SumC([j \in 1..Len(kids) |-> kids[j].s]))]

MakeIn(tab, x, b, refs) == Make(x, b, refs, TLCEval([j \in 1..Len(refs) |-> tab[refs[j]]]))

(* The data of the branch that replaces a cell under `depth` Merkle cells. *)
PrunedBits(c, depth) ==
  LET m == Or3(c.m, 2^depth)
      ls == SelectSeq(<<0, 1, 2, 3>>, LAMBDA l : l <= depth /\ Sig(c.m, l))
  IN  "00000001" \o Nat2Bits(m, 8) \o Join([j \in 1..Len(ls) |-> Unhex(c.h[ls[j]])]) \o Join([j \in 1..Len(ls) |-> Nat2Bits(c.d[ls[j]], 16)])
Prune(c, depth) == IF depth > 2 THEN NoCell ELSE Make(1, PrunedBits(c, depth), <<>>, <<>>)

(* A cell seen through `times` Merkle cells: that many of its highest levels are gone.                    *)
(* Masks with gaps lose their meaning under more than one; then only contiguous ones are specified.       *)
VIdx(m, l, times) == IF times = 0 THEN l ELSE Ones(Low(m \div 2^times, l))
Virtual(c, times) == [h |-> [l \in 0..3 |-> c.h[VIdx(c.m, l, times)]], d |-> [l \in 0..3 |-> c.d[VIdx(c.m, l, times)]]]
Contiguous(m) == m \in {0, 1, 3, 7}

ProofBits(c) == "00000011" \o Unhex(c.h[0]) \o Nat2Bits(c.d[0], 16)
UpdateBits(a, c) == "00000100" \o Unhex(a.h[0]) \o Unhex(c.h[0]) \o Nat2Bits(a.d[0], 16) \o Nat2Bits(c.d[0], 16)
=============================================================================
