------------------------------ MODULE Actions --------------------------------
(***************************************************************************)
(* Lists of output actions: every cell refers to the list before and has   *)
(* one action; the empty list is an empty cell.  What was emitted last     *)
(* comes first.                                                            *)
(***************************************************************************)
EXTENDS Tlb

(* the actions as they are found, up to the end or something else *)
Act(T, row) ==
  IF row[1] = 1 \/ row[3] = <<>> THEN [ok |-> FALSE, v |-> <<>>]
  ELSE Dec(T, [ok |-> TRUE, b |-> row[2], r |-> Tail(row[3]), v |-> <<>>], Ty("OutAction"), FALSE, 0)
(* the cells of the list, as far as there is an action in each *)
Step1(T, s) ==
  IF s.done THEN s
  ELSE LET row == T[s.c]  a == TLCEval(Act(T, row)) IN
       IF ~a.ok THEN [s EXCEPT !.done = TRUE, !.ok = row = <<0, "", <<>>>>]
       ELSE IF T[row[3][1]][1] = 1 THEN [s EXCEPT !.done = TRUE]
       ELSE [s EXCEPT !.c = row[3][1], !.acts = Append(@, a.v)]
ReadActions(T, c) == FoldLeft(LAMBDA s, j : Step1(T, s), [c |-> c, acts |-> <<>>, ok |-> FALSE, done |-> FALSE], [j \in 1..(Len(T) + 1) |-> j])
=============================================================================
