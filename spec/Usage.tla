-------------------------------- MODULE Usage --------------------------------
(***************************************************************************)
(* Usage trees.  Cells are the rows <<exotic, bits, refs>> of a table T,   *)
(* one for each content.  A handle is a cell and the trees its reads are   *)
(* reported to.  A tree records a cell when it is loaded, or when its data *)
(* is accessed; nothing after it was dropped.                              *)
(***************************************************************************)
EXTENDS Trees, FiniteSets

Handle(n, ts) == [n |-> n, ts |-> ts]
NoHandle == Handle(0, <<>>)
Tree(mode) == [mode |-> mode, live |-> TRUE, seen |-> {}, subs |-> FALSE, sub |-> {}]

(* the trees ts note that the cells ns were loaded ("load") or their data accessed ("data") *)
Note(trees, ts, ns, what) ==
  [t \in 1..Len(trees) |-> LET x == trees[t] IN
     IF x.live /\ x.mode = what /\ \E j \in 1..Len(ts) : ts[j] = t THEN [x EXCEPT !.seen = @ \cup ns] ELSE x]

Child(T, n, i) == IF i <= Len(T[n][3]) THEN T[n][3][i] ELSE 0
RECURSIVE At(_, _, _)
At(T, n, path) == IF path = <<>> THEN n ELSE At(T, Child(T, n, path[1]), Tail(path))
Starts(path) == {SubSeq(path, 1, k) : k \in 0..Len(path)}
OnPath(T, n, path) == {At(T, n, p) : p \in Starts(path)}

Reach(T, from) ==
  LET RECURSIVE Go(_, _)
      Go(todo, seen) == IF todo = {} THEN seen
                        ELSE LET new == UNION {{T[x][3][j] : j \in 1..Len(T[x][3])} : x \in todo} \ seen
                             IN  Go(new, seen \cup new)
  IN  Go(from, from)
Below(T, n) == Reach(T, {T[n][3][j] : j \in 1..Len(T[n][3])})

(* A proof of root n from a tree's record has the cell at a path when every cell on the way was recorded, *)
(* belongs to a subtree that is taken whole, or has no references.                                         *)
RECURSIVE Has(_, _, _, _)
Has(T, t, n, path) ==
  \/ path = <<>>
  \/ LET c == Child(T, n, path[1]) IN
     IF c \in t.seen THEN Has(T, t, c, Tail(path)) ELSE (t.subs /\ c \in t.sub) \/ T[c][3] = <<>>

(* the cells a lookup in a dictionary goes through *)
RECURSIVE Steps(_, _, _, _)
Steps(T, c, n, key) ==
  LET l == ReadLabel(T[c][2], n)
      rest == Drop(key, Len(l[1]))
  IN  {c} \cup IF ~StartsWith(l[1], key) \/ rest = "" THEN {}
               ELSE Steps(T, T[c][3][IF BitAt(rest, 1) = "0" THEN 1 ELSE 2], n - Len(l[1]) - 1, Drop(rest, 1))
=============================================================================
