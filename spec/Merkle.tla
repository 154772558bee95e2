------------------------------- MODULE Merkle --------------------------------
(***************************************************************************)
(* Merkle proofs and updates over a table of cells (see Cells).            *)
(*                                                                         *)
(* A filter is a pair of sets of hashes: cells to include, and cells to    *)
(* include with everything below them.  References of a cell have lower    *)
(* indices than the cell, so folds over the table replace recursion.       *)
(***************************************************************************)
EXTENDS Cells, SequencesExt, FiniteSets

H(tab, k) == tab[k].h[3]
Filter(inc, sub, inv) == [inc |-> inc, sub |-> sub, inv |-> inv]
Act(f, hash) ==
  IF f.inv THEN (IF hash \in f.inc \/ hash \in f.sub THEN "skip" ELSE "inc")
  ELSE IF hash \in f.inc THEN "inc" ELSE IF hash \in f.sub THEN "sub" ELSE "skip"
IsMerkle(c) == TypeOf(c.x, c.b) \in {"proof", "update"}

(* what is replaced: skipped cells, unless too small *)
BigBits == 288
Cut(tab, f, big, k) == /\ Act(f, H(tab, k)) = "skip"
                       /\ tab[k].k # <<>> \/ (big /\ Len(tab[k].b) > BigBits)
Whole(tab, f, k) == Act(f, H(tab, k)) = "sub"

(* Rebuilt(..)[k][md + 1]: cell k under md Merkle cells (3: three or more), as it is in the proof *)
Child(tab, f, big, done, k, md) ==
  IF Whole(tab, f, k) THEN tab[k]
  ELSE IF Cut(tab, f, big, k) THEN Prune(tab[k], md)
  ELSE done[k][md + 1]
RebuildOne(tab, f, big, done, k, md, top) ==
  LET c == tab[k]
      md2 == IF IsMerkle(c) THEN Min2(top, md + 1) ELSE md
      kids == TLCEval([j \in 1..Len(c.k) |-> Child(tab, f, big, done, c.k[j], md2)])
  IN  IF \E j \in 1..Len(kids) : Bad(kids[j]) THEN NoCell ELSE Make(c.x, c.b, [j \in 1..Len(kids) |-> 0], kids)
Down(n) == [k \in 1..n |-> n + 1 - k]
Kids(tab, k) == {tab[k].k[j] : j \in 1..Len(tab[k].k)}
Below(tab, root) == TLCEval(FoldLeft(LAMBDA w, k : IF k \in w THEN w \cup Kids(tab, k) ELSE w, {root}, Down(root)))
(* no more Merkle cells on a path than there are *)
Top(tab, ks) == Min2(3, Cardinality({k \in ks : IsMerkle(tab[k])}))
Rebuilt(tab, root, f, big, ks, top) ==
  FoldLeft(LAMBDA done, k : Append(done, IF ~(k \in ks) THEN <<>> ELSE TLCEval([m \in 1..(top + 1) |-> RebuildOne(tab, f, big, done, k, m - 1, top)])),
           <<>>, [k \in 1..(root - 1) |-> k])
ProofOf(tab, root, f, big) ==
  LET ks == Below(tab, root)
      top == Top(tab, ks)
  IN  RebuildOne(tab, f, big, Rebuilt(tab, root, f, big, ks, top), root, 0, top)

(* the cells that are rebuilt, and those that are replaced or taken whole *)
Walked(tab, root, f, big) ==
  FoldLeft(LAMBDA w, k : IF k \in w THEN w \cup {j \in Kids(tab, k) : ~Whole(tab, f, j) /\ ~Cut(tab, f, big, j)} ELSE w, {root}, Down(root))
CutSet(tab, root, f, big) == {j \in UNION {Kids(tab, k) : k \in Walked(tab, root, f, big)} : Cut(tab, f, big, j)}
Hashes(tab, ks) == {H(tab, k) : k \in ks}

(* the filter of a proof for one cell: the path to its first occurrence, depth first *)
RECURSIVE PathTo(_, _, _), FirstPath(_, _, _, _)
FirstPath(tab, k, hash, j) ==
  IF j > Len(tab[k].k) THEN <<>>
  ELSE LET c == tab[k].k[j] IN
       IF H(tab, c) = hash THEN <<c>>
       ELSE LET p == PathTo(tab, c, hash) IN IF p # <<>> THEN <<c>> \o p ELSE FirstPath(tab, k, hash, j + 1)
PathTo(tab, k, hash) == FirstPath(tab, k, hash, 1)
CellFilter(tab, root, hash) ==
  LET p == PathTo(tab, root, hash) IN
  Filter(IF p = <<>> THEN {hash} ELSE {hash} \cup Hashes(tab, {root} \cup {p[j] : j \in 1..(Len(p) - 1)}), {}, FALSE)

(***************************************************************************)
(* Updates.  `f` says which cells of the old tree were visited.            *)
(***************************************************************************)
Invert(f) == [f EXCEPT !.inv = TRUE]
(* which cells of the old tree lead to cells that the new tree reuses; S[k][1]: not below a whole subtree, [2]: below one *)
Leads(tab, f, reused, old) ==
  FoldLeft(LAMBDA done, k :
    LET one(all) ==
          LET a == Act(f, H(tab, k))
              go == all \/ a # "skip"
              all2 == all \/ a = "sub"
              below == \E j \in Kids(tab, k) : done[j][IF all2 THEN 2 ELSE 1].res
          IN  [go |-> go, all |-> all2, way |-> go /\ below, res |-> (go /\ below) \/ H(tab, k) \in reused]
    IN Append(done, TLCEval(<<one(FALSE), one(TRUE)>>)), <<>>, [k \in 1..old |-> k])
(* the part of the old tree that the filter lets one walk, with how it is entered *)
Entered(tab, leads, old) ==
  FoldLeft(LAMBDA w, k : FoldLeft(LAMBDA w2, e : IF <<k, e>> \in w2 /\ leads[k][e].go
                                                 THEN w2 \cup {<<j, IF leads[k][e].all THEN 2 ELSE 1>> : j \in Kids(tab, k)} ELSE w2, w, <<1, 2>>),
           {<<old, 1>>}, Down(old))
UpdateOf(tab, old, new, f) ==
  IF H(tab, old) = H(tab, new) THEN LET p == Prune(tab[old], 0) IN [old |-> p, new |-> p, closed |-> TRUE, tree |-> {H(tab, new)}]
  ELSE LET reused == Hashes(tab, CutSet(tab, new, Invert(f), FALSE))
           n == ProofOf(tab, new, Invert(f), FALSE)
           leads == Leads(tab, f, reused, old)
           ent == Entered(tab, leads, old)
           way == Hashes(tab, {e[1] : e \in {x \in ent : leads[x[1]][x[2]].way}}) \cup (IF leads[old][1].res THEN {H(tab, old)} ELSE {})
       IN  [old |-> ProofOf(tab, old, Filter(way, {}, FALSE), FALSE), new |-> n,
            closed |-> reused \subseteq Hashes(tab, {e[1] : e \in ent}),
            tree |-> reused \cup Hashes(tab, Walked(tab, new, Invert(f), FALSE))]

(***************************************************************************)
(* Removed cells.  A store counts for each cell the references to it from  *)
(* distinct cells, and one for each root.  `Going` is what the counts lose *)
(* when the old tree goes and the new one stays.  `Named` is what comes    *)
(* out when only the cells that the new part names are taken to stay: it   *)
(* counts also references of cells that stay, but lie below a reused cell. *)
(***************************************************************************)
Losses(tab, old, w, stays) ==
  LET \* one representative for each cell that goes
      open == {k \in w : ~(H(tab, k) \in stays) /\ \A j \in w : H(tab, j) = H(tab, k) => j >= k}
      cnt(hash) == (IF hash = H(tab, old) THEN 1 ELSE 0)
                   + FoldLeft(LAMBDA a, k : a + Len(SelectSeq(tab[k].k, LAMBDA j : H(tab, j) = hash)), 0, SetToSeq(open))
  IN  {<<hash, cnt(hash)>> : hash \in {H(tab, old)} \cup Hashes(tab, UNION {Kids(tab, k) : k \in open})}
Going(tab, old, new) == Losses(tab, old, Below(tab, old), Hashes(tab, Below(tab, new)))
Named(tab, old, tree) ==
  Losses(tab, old, FoldLeft(LAMBDA s, k : IF k \in s /\ ~(H(tab, k) \in tree) THEN s \cup Kids(tab, k) ELSE s, {old}, Down(old)), tree)
=============================================================================
