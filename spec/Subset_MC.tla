------------------------------ MODULE Subset_MC ------------------------------
(***************************************************************************)
(* Choosing members one by one with any numbers: the ones that the search  *)
(* over sums with holes finds are those whose share covers the number      *)
(* among those that are left; none is chosen twice.  A shuffle gives every *)
(* order exactly once.  Sets and configurations of such sizes are then     *)
(* given to the code.                                                      *)
(***************************************************************************)
EXTENDS Subset, FiniteSets, Json, TLC

CONSTANTS Size, Weights, Main, Top
VARIABLES ws, out, holes, cfg

N64(k) == Nat2Bits(k, 64)
SumTo(s, n) == FoldLeft(LAMBDA a, j : a + s[j], 0, [j \in 1..n |-> j])
Total(s) == SumTo(s, Len(s))
Left == SelectSeq([j \in 1..Len(ws) |-> j], LAMBDA j : \A k \in 1..Len(out) : out[k] # j)
LeftSum == FoldLeft(LAMBDA a, j : a + ws[j], 0, Left)

(* the search: holes <<sum before, weight>> in order are skipped; the last member whose sum before is not above is taken *)
Skipped(p) == FoldLeft(LAMBDA a, h : IF a.stop \/ a.p < h[1] THEN [a EXCEPT !.stop = TRUE] ELSE [a EXCEPT !.p = @ + h[2]], [p |-> p, stop |-> FALSE], holes).p
Found(p) == LET q == Skipped(p) IN Cardinality({j \in 1..Len(ws) : SumTo(ws, j - 1) <= q})
Fill(h) == LET before == SelectSeq(holes, LAMBDA x : x[1] < h[1] \/ (x[1] = h[1] /\ x[2] <= h[2])) IN
           before \o <<h>> \o SubSeq(holes, Len(before) + 1, Len(holes))

Init == ws = <<>> /\ out = <<>> /\ holes = <<>> /\ cfg = 0
Choose == /\ ws = <<>>
          /\ \E n \in 1..Size : \E s \in [1..n -> Weights] : ws' = s
          /\ UNCHANGED <<out, holes, cfg>>
Take1(p) == /\ out' = Append(out, Covers([j \in 1..Len(ws) |-> N64(ws[j])], Left, N64(p)))
            /\ holes' = Fill(<<SumTo(ws, Found(p) - 1), ws[Found(p)]>>)
            /\ UNCHANGED <<ws, cfg>>
Next == Choose \/ (ws # <<>> /\ LeftSum > 0 /\ \E p \in 0..(LeftSum - 1) : Take1(p))

Distinct == \A j, k \in 1..Len(out) : j # k => out[j] # out[k]
Chosen == \A k \in 1..Len(out) : out[k] \in 1..Len(ws) /\ ws[out[k]] > 0
SameSearch == (ws # <<>> /\ LeftSum > 0) => \A p \in 0..(LeftSum - 1) : Found(p) = Covers([j \in 1..Len(ws) |-> N64(ws[j])], Left, N64(p))

Picks(n) == {js \in [1..n -> 1..n] : \A k \in 1..n : js[k] <= k}
ASSUME \A n \in 1..Top : LET S == {Shuffle(js) : js \in Picks(n)} IN
         /\ Cardinality(S) = Cardinality(Picks(n))
         /\ \A s \in S : {s[k] : k \in 1..n} = 1..n
ASSUME \A x \in {Rep("0", 64), Rep("1", 64), "1" \o Rep("0", 63), Rep("01", 32)}, r \in {1, 2, 3, 10, 255} :
         BCmp(Below(x, N64(r)), N64(r)) < 0

Key(j) == Rep(Hex(Nat2Bits(j, 8)), 32)
Member(j) == <<Key(j), N64(ws[j]), IF j % 2 = 0 THEN "" ELSE Key(j + 16), IF j % 4 = 1 THEN j ELSE 0>>
Op(via, main, isolate, shuffle, num, wc, pre, seqno) ==
  [op |-> "subset", list |-> [j \in 1..Len(ws) |-> Member(j)], main |-> main, isolate |-> isolate, shuffle |-> shuffle, num |-> num,
   shard |-> [wc |-> wc, prefix |-> pre \o "1" \o Rep("0", 63 - Len(pre))], via |-> via, seqno |-> Nat2Bits(seqno, 32)]
Gen == (ws = <<>> \/ out # <<>> \/ \E j \in 1..Len(ws) : ws[j] = 0) \/
  PrintT("GEN " \o ToJson([cfg |-> [none |-> 0], ev |->
    SetToSeq({Op(via, m, iso, FALSE, num, Rep("0", 32), pre, 7) : via \in {"cell", "json"}, m \in {n \in Main : n <= Len(ws)}, iso \in BOOLEAN, num \in 0..(Len(ws) + 1), pre \in {"", "01"}}
             \cup {Op("cell", m, FALSE, sh, 2, Rep("1", 32), "", seqno) : m \in {n \in Main : n <= Len(ws)}, sh \in BOOLEAN, seqno \in {1, 2}})]))
=============================================================================
