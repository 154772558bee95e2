------------------------------ MODULE Stat_MC -------------------------------
(***************************************************************************)
(* A counter that walks the graph cell by cell, in any order, compared     *)
(* with what is reachable: for all small graphs, all sequences of          *)
(* additions (cells and slices) and all limits.                            *)
(***************************************************************************)
EXTENDS Stat, Json, TLC

CONSTANTS MaxNodes, MaxAdds, Datas
VARIABLES ns, q, todo, seen, failed, ops

Two == {"", "1"}
vars == <<ns, q, todo, seen, failed, ops>>
N == Len(ns)
Refs == {<<>>} \cup {<<a>> : a \in 1..N} \cup {<<a, b>> : a \in 1..N, b \in 1..N}
Init == ns = <<>> /\ q = New(-1) /\ todo = {} /\ seen = {} /\ failed = FALSE /\ ops = <<>>
Ready == N = MaxNodes
Started == Ready /\ Len(ops) > N
Adds == Len(ops) - N - 1

Grow == /\ ~Ready
        /\ \E v \in Datas, r \in Refs : LET x == Intern(ns, Cell1(0, v, r)) IN
              /\ Len(x[1]) > N
              /\ ns' = x[1]
              /\ ops' = Append(ops, [op |-> "cell", x |-> 0, v |-> v, refs |-> r])
        /\ UNCHANGED <<q, todo, seen, failed>>
Start == /\ Ready /\ ~Started
         /\ \E lim \in -1..N : q' = New(lim) /\ ops' = Append(ops, [op |-> "new", lim |-> lim])
         /\ UNCHANGED <<ns, todo, seen, failed>>
(* an addition gives the walk cells to visit *)
AddCell == /\ Started /\ todo = {} /\ ~failed /\ Adds < MaxAdds
           /\ \E c \in 1..N : /\ q' = AddTo(ns, q, {c}, 0)
                              /\ todo' = {c} \ seen
                              /\ ops' = Append(ops, [op |-> "add", c |-> c])
           /\ UNCHANGED <<ns, seen, failed>>
AddSlice == /\ Started /\ todo = {} /\ ~failed /\ Adds < MaxAdds
            /\ \E c \in 1..N, r0 \in 0..2 : LET n == ns[c] IN
                 /\ r0 <= Len(n.k)
                 /\ LET from == {n.k[j] : j \in (r0 + 1)..Len(n.k)} IN
                      /\ q' = AddTo(ns, q, from, n.l)
                      /\ todo' = from \ seen
                 /\ ops' = Append(ops, [op |-> "addslice", c |-> c, b0 |-> 0, b1 |-> n.l, r0 |-> r0, r1 |-> Len(n.k)])
            /\ UNCHANGED <<ns, seen, failed>>
Visit == /\ ~failed
         /\ \E c \in todo :
              IF q.lim >= 0 /\ Cardinality(seen) >= q.lim THEN failed' = TRUE /\ todo' = {} /\ seen' = seen
              ELSE /\ seen' = seen \cup {c}
                   /\ todo' = (todo \cup {ns[c].k[j] : j \in 1..Len(ns[c].k)}) \ seen'
                   /\ failed' = FALSE
         /\ UNCHANGED <<ns, q, ops>>
Next == Grow \/ Start \/ AddCell \/ AddSlice \/ Visit

(* However the walk goes, it ends with every reachable cell counted once, or fails, when the limit is less than that. *)
WalkOk == todo = {} => failed = q.over /\ (~failed => seen = q.seen)
Bounded == q.lim >= 0 => Cardinality(seen) <= q.lim
(* the order of additions does not matter: the count is of what is reachable from them all *)
OrderFree == ~q.over => q.seen = Reach(ns, q.seen)
Gen == ~(Started /\ todo = {} /\ (Adds = MaxAdds \/ failed))
       \/ PrintT("GEN " \o ToJson([cfg |-> [none |-> 0], ev |-> ops]))
View == <<ns, q, todo, seen, failed, ops>>
=============================================================================
