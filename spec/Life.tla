-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* When cells live.  A node is an object with references to others: a      *)
(* cell, or a view of one (virtualized, tracked) of its own; c is what it  *)
(* occupies.  A handle refers to a node, or to none any more.  Alive is    *)
(* what is reachable from the handles, and nothing else.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Node(k, view, c) == [k |-> k, view |-> view, c |-> c]
Reach(nodes, from) ==
  LET RECURSIVE Go(_, _)
      Go(todo, seen) == IF todo = {} THEN seen
                        ELSE LET new == UNION {{nodes[x].k[j] : j \in 1..Len(nodes[x].k)} : x \in todo} \ seen
                             IN  Go(new, seen \cup new)
  IN  Go(from, from)
Alive(s) == Reach(s.nodes, {s.hs[j] : j \in 1..Len(s.hs)} \ {0})
Space(nodes, ns) == <<MapThenSumSet(LAMBDA x : nodes[x].c[1], ns), MapThenSumSet(LAMBDA x : nodes[x].c[2], ns)>>
=============================================================================
