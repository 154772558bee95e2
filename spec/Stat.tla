-------------------------------- MODULE Stat --------------------------------
(***************************************************************************)
(* Counting the distinct cells of graphs.                                  *)
(*                                                                         *)
(* A node stands for one cell, or for a long chain of cells (of which only *)
(* the top is referred to from outside).  w is the number of its cells, l  *)
(* the number of bits of each, k the nodes it refers to, t what else makes *)
(* it the node it is.  Equal nodes are one node: Intern gives its number.  *)
(***************************************************************************)
EXTENDS Bits, FiniteSets, FiniteSetsExt, SequencesExt

Cell1(x, v, k) == [t |-> <<"cell", x, v>>, w |-> 1, l |-> Len(v), k |-> k]
Chain(v, n, k) == [t |-> <<"chain", n, v>>, w |-> n, l |-> Len(v) + 32, k |-> k]
Intern(ns, node) ==
  LET at == SelectInSeq(ns, LAMBDA y : y = node)
  IN  IF at # 0 THEN <<ns, at>> ELSE <<Append(ns, node), Len(ns) + 1>>

(* the nodes reachable from a set of nodes *)
Reach(ns, from) ==
  LET RECURSIVE Go(_, _)
      Go(todo, seen) == IF todo = {} THEN seen
                        ELSE LET new == UNION {{ns[x].k[j] : j \in 1..Len(ns[x].k)} : x \in todo} \ seen
                             IN  Go(new, seen \cup new)
  IN  Go(from, from)
CellsOf(ns, s) == MapThenSumSet(LAMBDA x : ns[x].w, s)
BitsOf(ns, s) == MapThenSumSet(LAMBDA x : ns[x].w * ns[x].l, s)

(* A counter: the nodes it has seen, the bits of the slices it was given, its limit (-1 for none); over once it failed. *)
New(lim) == [seen |-> {}, own |-> 0, lim |-> lim, over |-> FALSE]
AddTo(ns, q, from, own) ==
  LET seen == Reach(ns, from) \cup q.seen
      over == q.lim >= 0 /\ CellsOf(ns, seen) > q.lim
  IN  [q EXCEPT !.seen = seen, !.own = @ + own, !.over = @ \/ over]
Sum(ns, q) == <<CellsOf(ns, q.seen), q.own + BitsOf(ns, q.seen)>>
=============================================================================
