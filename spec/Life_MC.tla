------------------------------ MODULE Life_MC ------------------------------
(***************************************************************************)
(* All short histories of building, reading and dropping cells.  Counting  *)
(* the handles of every cell, as the code does, frees the cells which      *)
(* cannot be reached any more, at once.  Each history is replayed.         *)
(***************************************************************************)
EXTENDS Life, Json, SequencesExt, TLC
CONSTANTS Cells,  \* cells made, at most
          Hands,  \* handles made, at most
          Ops,    \* operations, at most
          R,      \* references of a cell, at most
          Weak
VARIABLES s, rc, hist
vars == <<s, rc, hist>>

None == 0
LiveH == {j \in 1..Len(s.hs) : s.hs[j] # 0}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
(* one handle less: a cell without handles gives up its own *)
RECURSIVE Less(_, _)
Less(c, x) == IF c[x] > 1 THEN [c EXCEPT ![x] = @ - 1]
              ELSE FoldLeft(LAMBDA a, y : Less(a, y), [c EXCEPT ![x] = 0], s.nodes[x].k)

Init == s = [nodes |-> <<>>, hs |-> <<>>] /\ rc = <<>> /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
Handle(x) == s' = [s EXCEPT !.hs = Append(@, x)]

New == /\ Len(s.nodes) < Cells /\ Len(s.hs) < Hands
       /\ \E refs \in SeqsUpTo(LiveH, R) :
            LET k == [j \in 1..Len(refs) |-> s.hs[refs[j]]] IN
            /\ s' = [nodes |-> Append(s.nodes, Node(k, FALSE, <<0, 0>>)), hs |-> Append(s.hs, Len(s.nodes) + 1)]
            /\ rc' = Append(FoldLeft(LAMBDA a, y : [a EXCEPT ![y] = @ + 1], rc, k), 1)
            /\ Op([op |-> "cell", x |-> 0, v |-> "1010", refs |-> refs])
Clone == /\ Len(s.hs) < Hands
         /\ \E j \in LiveH : /\ Handle(s.hs[j])
                             /\ rc' = [rc EXCEPT ![s.hs[j]] = @ + 1]
                             /\ Op([op |-> "clone", c |-> j])
Child == /\ Len(s.hs) < Hands
         /\ \E j \in LiveH : \E i \in 1..Len(s.nodes[s.hs[j]].k) :
              LET y == s.nodes[s.hs[j]].k[i] IN
              /\ Handle(y) /\ rc' = [rc EXCEPT ![y] = @ + 1]
              /\ Op([op |-> "child", c |-> j, i |-> i, slice |-> FALSE, plain |-> TRUE])
Drop == \E j \in LiveH : /\ s' = [s EXCEPT !.hs[j] = 0] /\ rc' = Less(rc, s.hs[j])
                         /\ Op([op |-> "drop", c |-> j])
(* at the same time: the order does not matter *)
Two == \E i, j \in LiveH : /\ i < j
                           /\ s' = [s EXCEPT !.hs[i] = 0, !.hs[j] = 0]
                           /\ rc' = Less(Less(rc, s.hs[i]), s.hs[j])
                           /\ Op([op |-> "drops", cs |-> <<i, j>>])
Next == Len(hist) < Ops /\ (New \/ Clone \/ Child \/ Drop \/ Two)

(* counting handles finds what can be reached: there are no cycles *)
Counted == {x \in 1..Len(s.nodes) : rc[x] > 0} = Alive(s)
Exact == \A x \in Alive(s) :
           rc[x] = Cardinality({j \in LiveH : s.hs[j] = x})
                   + MapThenSumSet(LAMBDA y : Cardinality({i \in 1..Len(s.nodes[y].k) : s.nodes[y].k[i] = x}), Alive(s))
Commute == \A i, j \in LiveH : i < j => Less(Less(rc, s.hs[i]), s.hs[j]) = Less(Less(rc, s.hs[j]), s.hs[i])
(* whole histories; the handles which are left are dropped as well *)
Gen == (Len(hist) = Ops) =>
         PrintT("GEN " \o ToJson([cfg |-> [weak |-> Weak],
                                  ev |-> hist \o SetToSeq({[op |-> "drop", c |-> j] : j \in LiveH})]))
=============================================================================
