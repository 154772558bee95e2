------------------------------ MODULE Cells_MC ------------------------------
(***************************************************************************)
(* All tables of a few cells over all cell types, with the laws that make  *)
(* Merkle proofs work.  Every table is also a history for the harness.     *)
(***************************************************************************)
EXTENDS Cells, Json

CONSTANTS MaxCells, Datas
VARIABLES tab, ops

Init == tab = <<>> /\ ops = <<>>
N == Len(tab)
Refs == {<<>>} \cup {<<a>> : a \in 1..N} \cup {<<a, b>> : a \in 1..N, b \in 1..N}
Add(c, op) == tab' = Append(tab, c) /\ ops' = Append(ops, op)
Next ==
  /\ N < MaxCells
  /\ \/ \E b \in Datas, r \in Refs : Add(MakeIn(tab, 0, b, r), [op |-> "cell", x |-> 0, v |-> b, refs |-> r])
     \/ \E a \in 1..N, m \in 0..2 : ~Bad(Prune(tab[a], m)) /\ Add(Prune(tab[a], m), [op |-> "prune", c |-> a, n |-> m])
     \/ \E a \in 1..N : Add(MakeIn(tab, 1, ProofBits(tab[a]), <<a>>), [op |-> "proof", c |-> a])
     \/ \E a \in 1..N, b \in 1..N : Add(MakeIn(tab, 1, UpdateBits(tab[a], tab[b]), <<a, b>>), [op |-> "update", c |-> a, c2 |-> b])
     \/ N = 0 /\ LET h == Rep("a7", 32) IN Add(MakeIn(tab, 1, "00000010" \o Unhex(h), <<>>), [op |-> "library", h |-> h])

(* equal tables up to how they were written down *)
View == [j \in 1..N |-> <<tab[j].x, tab[j].b, tab[j].k>>]

Valid == \A j \in 1..N : ~Bad(tab[j])
(* hashes of levels that are not significant repeat the one below; level 3 is the representation *)
LevelsOk == \A j \in 1..N : \A l \in 1..3 :
              LET c == tab[j] IN /\ ~Sig(c.m, l) => c.h[l] = c.h[l - 1] /\ c.d[l] = c.d[l - 1]
                                 /\ Sig(c.m, l) => c.h[l] # c.h[l - 1]
(* two cells are equal exactly when their hashes are *)
Injective == \A a, b \in 1..N : (tab[a].h[3] = tab[b].h[3]) = (/\ tab[a].x = tab[b].x /\ tab[a].b = tab[b].b
                                   /\ [j \in 1..Len(tab[a].k) |-> tab[tab[a].k[j]].h[3]] = [j \in 1..Len(tab[b].k) |-> tab[tab[b].k[j]].h[3]])
(* a pruned branch stands for its cell on all lower levels, *)
Transparent == \A j \in 1..N : \A m \in 0..2 :
   LET p == Prune(tab[j], m) IN Bad(p) \/ \A l \in 0..m : p.h[l] = tab[j].h[l] /\ p.d[l] = tab[j].d[l]
(* and may be put in its place without the parent's lower levels noticing *)
Parent == \A j \in 1..N : LET c == tab[j] IN
   c.k = <<>> \/
   LET p == Prune(tab[c.k[1]], 0)
       kids == [i \in 1..Len(c.k) |-> IF i = 1 THEN p ELSE tab[c.k[i]]]
       e == IF c.x = 1 THEN 1 ELSE 0
       p2 == Prune(tab[c.k[1]], e)
       q == Make(c.x, c.b, c.k, [i \in 1..Len(c.k) |-> IF i = 1 THEN p2 ELSE tab[c.k[i]]])
   IN  Bad(p2) \/ (q.h[0] = c.h[0] /\ q.d[0] = c.d[0])
(* a proof of a cell, seen as virtual, is that cell *)
Proofs == \A j \in 1..N : LET v == Virtual(tab[j], 1) IN tab[j].m = 1 => v.h[3] = tab[j].h[0] /\ v.d[3] = tab[j].d[0]

Extra == [j \in 1..N |-> [op |-> "slice", c |-> j]]
         \o [j \in 1..(N * N) |-> [op |-> "eq", c |-> ((j - 1) \div N) + 1, c2 |-> ((j - 1) % N) + 1]]
         \o [j \in 1..4 |-> [op |-> "twice", c |-> N, n |-> j]]
         \o [j \in 1..12 |-> [op |-> "walk", c |-> N, path |-> IF j <= 3 THEN <<j>> ELSE <<1 + (j % 2), 1 + ((j \div 2) % 2), 1 + ((j \div 4) % 2)>>, owned |-> (j % 2 = 0)]]
Gen == N # MaxCells \/ PrintT("GEN " \o ToJson([cfg |-> [none |-> 0], ev |-> ops \o Extra]))
Few == {"", "1011"}
One == {"10100"}
=============================================================================
