----------------------------- MODULE Actions_MC ------------------------------
(***************************************************************************)
(* Lists of actions of all kinds, and such lists with something wrong.     *)
(***************************************************************************)
EXTENDS Actions, TlbGen, Json, TLC

CONSTANTS Seeds, Size
VARIABLES want, g, list

Init == want = 0 /\ g = Start(0) /\ list = <<>>
Choose == want = 0 /\ \E s \in 1..Seeds : want' = s /\ g' = Turn(Turn(Start(s))) /\ list' = <<1>>
(* one more: its cell refers to the list so far *)
Emit == /\ want # 0 /\ Len(list) <= Size
        /\ LET e == TLCEval(Some([Open(g) EXCEPT !.r = <<list[Len(list)]>>, !.v = <<>>], Ty("OutAction"), 0))
               x == Intern(e.T, <<0, e.b, e.r>>)
           IN  /\ Small(e)
               /\ g' = [e EXCEPT !.T = x[1], !.v = Append(g.v, e.v)]
               /\ list' = Append(list, x[2])
        /\ UNCHANGED want
Next == Choose \/ Emit

(* the last comes first, and every list before is the rest *)
InOrder == list # <<>> => LET e == ReadActions(g.T, list[Len(list)]) IN e.ok /\ e.acts = Reverse(g.v)
Odd(r) == <<r>> \o (IF r[2] = "" THEN <<>> ELSE <<[r EXCEPT ![2] = Take(@, Len(@) - 1)], [r EXCEPT ![2] = "1" \o Drop(@, 1)]>>)
          \o <<[r EXCEPT ![2] = Take(@ \o "1", Min2(1023, Len(@) + 1))], [r EXCEPT ![3] = <<>>]>>
          \o (IF r[3] # <<>> THEN <<[r EXCEPT ![3] = [j \in 1..Len(@) |-> IF j = 1 THEN 4 ELSE @[j]]], [r EXCEPT ![3] = [j \in 1..Len(@) |-> IF j = 1 THEN 2 ELSE @[j]]]>> ELSE <<>>)
Gen == (list = <<>> \/ Len(list) <= 1) \/
  LET R == FoldLeft(LAMBDA a, r : LET x == Intern(a[1], r) IN <<x[1], Append(a[2], x[2])>>, <<g.T, <<>>>>, Odd(g.T[list[Len(list)]]))
  IN  PrintT("GEN " \o ToJson([cfg |-> [none |-> 0, cells |-> R[1]], ev |-> [j \in 1..Len(R[2]) |-> [op |-> "acts", cell |-> R[2][j]]]]))
=============================================================================
