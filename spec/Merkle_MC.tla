------------------------------ MODULE Merkle_MC ------------------------------
(***************************************************************************)
(* Proofs and updates over all tables of a few cells, for all filters,     *)
(* with the laws that make them sound.  Every table is also a history.     *)
(***************************************************************************)
EXTENDS Merkle, Json

CONSTANTS MaxCells, Datas, Mode
VARIABLES tab, ops

Init == tab = <<>> /\ ops = <<>>
N == Len(tab)
Refs == {<<>>} \cup {<<a>> : a \in 1..N} \cup {<<a, b>> : a \in 1..N, b \in 1..N}
Add(c, op) == ~Bad(c) /\ tab' = Append(tab, c) /\ ops' = Append(ops, op)
Next ==
  /\ N < MaxCells
  /\ \/ \E b \in Datas, r \in Refs : Add(MakeIn(tab, 0, b, r), [op |-> "cell", x |-> 0, v |-> b, refs |-> r])
     \/ Mode # "plain" /\ \E a \in 1..N : Add(Prune(tab[a], 0), [op |-> "prune", c |-> a, n |-> 0])
     \/ \E a \in 1..N : Add(MakeIn(tab, 1, ProofBits(tab[a]), <<a>>), [op |-> "proof", c |-> a])
     \/ Mode # "plain" /\ N > 1 /\ \E a \in 1..N, b \in 1..N : Add(MakeIn(tab, 1, UpdateBits(tab[a], tab[b]), <<a, b>>), [op |-> "update", c |-> a, c2 |-> b])
View == [j \in 1..N |-> <<tab[j].x, tab[j].b, tab[j].k>>]
Full == N = MaxCells
(* distinct cells, and everything is used *)
Useful == \A a, b \in 1..N : a # b => tab[a].h[3] # tab[b].h[3]
Roots == {k \in 1..N : tab[k].k # <<>>}

Sets == [1..N -> {"skip", "inc", "sub"}]
Of(g, w) == SelectSeq([j \in 1..N |-> j], LAMBDA j : g[j] = w)
Set(q) == {q[j] : j \in 1..Len(q)}
FilterOf(g) == Filter(Hashes(tab, Set(Of(g, "inc"))), Hashes(tab, Set(Of(g, "sub"))), FALSE)

(* a proof stands for its root, *)
ProofsOk == Full => \A r \in Roots : tab[r].m = 0 => \A g \in Sets : \A big \in {TRUE, FALSE} :
   LET p == ProofOf(tab, r, FilterOf(g), big) IN
   /\ ~Bad(p) /\ p.h[0] = tab[r].h[3] /\ p.d[0] = tab[r].d[3] /\ p.m \in {0, 1}
   \* and is the root itself exactly when nothing was cut
   /\ (p.h[3] = tab[r].h[3]) = (CutSet(tab, r, FilterOf(g), big) = {})
(* a proof for a cell has everything on the way to it and cuts the rest *)
CellProofs == Full => \A r \in Roots : tab[r].m = 0 => \A c \in Below(tab, r) \ {r} :
   LET f == CellFilter(tab, r, H(tab, c)) IN
   /\ c \in Walked(tab, r, f, FALSE)
   /\ \A k \in Walked(tab, r, f, FALSE) : Act(f, H(tab, k)) = "inc" \/ tab[k].k = <<>>

Plain == {k \in 1..N : tab[k].m = 0}
Closed(a, b, f) == UpdateOf(tab, a, b, f)
(* an update made from the right cells has what it needs to be applied: the cells it reuses are in its old part *)
UpdatesOk == Full /\ Mode = "update" => \A a, b \in Plain : \A g \in Sets :
   LET f == FilterOf(g)
       u == UpdateOf(tab, a, b, f)
       reused == Hashes(tab, CutSet(tab, b, Invert(f), FALSE))
       leads == Leads(tab, f, reused, a)
       ent == Entered(tab, leads, a)
       way == Hashes(tab, {e[1] : e \in {x \in ent : leads[x[1]][x[2]].way}}) \cup (IF leads[a][1].res THEN {H(tab, a)} ELSE {})
       old == Walked(tab, a, Filter(way, {}, FALSE), FALSE)
   IN  /\ ~Bad(u.old) /\ ~Bad(u.new)
       /\ u.old.h[0] = H(tab, a) /\ u.new.h[0] = H(tab, b)
       /\ a # b /\ u.closed => reused \subseteq Hashes(tab, {a} \cup UNION {Kids(tab, k) : k \in old})
(* what goes, and what the code counts, which is no less *)
Count(s, h) == IF \E e \in s : e[1] = h THEN (CHOOSE e \in s : e[1] = h)[2] ELSE 0
RemovedOk == Full /\ Useful /\ Mode = "update" => \A a, b \in Plain : a # b => \A g \in Sets :
   LET u == UpdateOf(tab, a, b, FilterOf(g))
       going == Going(tab, a, b)
       named == Named(tab, a, u.tree)
       below == UNION {Below(tab, k) \ {k} : k \in {j \in Below(tab, a) : H(tab, j) \in u.tree /\ j \in Below(tab, b)}}
   IN  u.closed =>
       /\ \A k \in 1..N : Count(named, H(tab, k)) >= Count(going, H(tab, k))
       /\ (\A k \in below : H(tab, k) \in u.tree \/ tab[k].k = <<>>) => named = going
       \* counts of references to the cells of the old tree
       /\ \A k \in Below(tab, a) \ (Below(tab, b) \cup {a}) :
            Count(going, H(tab, k)) = FoldLeft(LAMBDA n, j : n + Len(SelectSeq(tab[j].k, LAMBDA i : i = k)), 0, SetToSeq(Below(tab, a)))

SetSeq == SetToSeq(Sets)
Ask(k) == LET g == SetSeq[((k - 1) \div 2) + 1]
              inc == Of(g, "inc")
              sub == Of(g, "sub")
          IN IF Mode = "update"
             THEN IF k % 2 = 0 THEN [op |-> "none"] ELSE
                  [op |-> "diff", inc |-> inc, sub |-> sub, plain |-> (Len(inc) = 1), splits |-> <<<<inc, sub>>, <<sub, inc>>>>]
             ELSE [op |-> "prove", c |-> N, inc |-> inc, sub |-> sub, big |-> (k % 2 = 0), any |-> (Len(sub) = 2), plain |-> (Len(inc) = 1), splits |-> <<inc, sub>>]
Pairs == SelectSeq([k \in 1..(N * N) |-> <<((k - 1) \div N) + 1, ((k - 1) % N) + 1>>], LAMBDA p : (p[1] = N \/ p[2] = N))
With(p, r) == r @@ [c |-> p[1], c2 |-> p[2]]
Diffs == LET asks == SelectSeq([k \in 1..(2 * Len(SetSeq)) |-> Ask(k)], LAMBDA o : o.op # "none") IN
         FlattenSeq([i \in 1..Len(Pairs) |-> FlattenSeq([k \in 1..Len(asks) |->
            LET u == (i - 1) * Len(asks) + k IN
            <<With(Pairs[i], asks[k]), [op |-> "apply", u |-> u, c |-> Pairs[i][1]]>>
            \o (IF k = 1 THEN <<[op |-> "apply", u |-> u, c |-> Pairs[i][2]], [op |-> "removed", u |-> u, c |-> Pairs[i][1]]>> ELSE <<>>)])])
         \o <<[op |-> "removed", u |-> 1 + (Len(asks) \div 2), c |-> Pairs[1][1]]>>
Proves == [k \in 1..(2 * Len(SetSeq)) |-> Ask(k)]
          \o [k \in 1..(2 * N + 2) |-> [op |-> "provecell", c |-> N, c2 |-> (k - 1) \div 2, big |-> (k % 2 = 0)]]
          \o [k \in 1..N |-> [op |-> "parse", c |-> k]]
Gen == ~(Full /\ Useful /\ N \in Roots /\ (Mode # "update" \/ \A k \in 1..N : tab[k].m = 0))
       \/ PrintT("GEN " \o ToJson([cfg |-> [none |-> 0], ev |-> ops \o (IF Mode = "update" THEN Diffs ELSE Proves)]))
Few == {"", "1011"}
One == {"10100"}
=============================================================================
