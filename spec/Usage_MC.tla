------------------------------ MODULE Usage_MC ------------------------------
(***************************************************************************)
(* Threads that read through one tracked root, in atomic steps: a wrapper  *)
(* has a slot for each child, filled once, by the first who comes (others  *)
(* wait), who then reports it if loads are recorded; and a flag that says  *)
(* its data access was reported.  The tree may be dropped at any time.     *)
(* Wrappers are named by their paths, for each path has its own.           *)
(***************************************************************************)
EXTENDS Usage, Json, TLC

CONSTANTS Threads, Reads, MayDrop
VARIABLES mode, prog, pc, slots, flags, tree, alive

vars == <<mode, prog, pc, slots, flags, tree, alive>>
(* leaf; a cell with it; a root with both, the latter twice *)
T == <<<<0, "1", <<>>>>, <<0, "01", <<1>>>>, <<0, "001", <<2, 2, 1>>>>>>
Root == 3
Paths == {p \in UNION {[1..k -> 1..3] : k \in 0..2} : \A j \in 1..Len(p) : Child(T, At(T, Root, SubSeq(p, 1, j - 1)), p[j]) # 0}

(* a program: paths to read, and whether data is accessed at their ends *)
Progs == [ps : [1..Reads -> Paths \ {<<>>}], data : BOOLEAN]
\* up to the order of the threads
Ordered(f) == \A a, b \in Threads : a < b => ~(f[a].data /\ ~f[b].data)
Start == [k |-> 1, at |-> <<>>, do |-> "go"]

Init == /\ mode \in {"load", "data"}
        /\ prog = <<>> /\ pc = [t \in Threads |-> Start] /\ slots = <<>> /\ flags = {} /\ alive = TRUE
        /\ tree = IF mode = "load" THEN {Root} ELSE {}
Choose == /\ prog = <<>>
          /\ \E f \in [Threads -> Progs] : Ordered(f) /\ prog' = f
          /\ UNCHANGED <<mode, pc, slots, flags, tree, alive>>
Slot(p) == IF p \in DOMAIN slots THEN slots[p] ELSE -1
SetSlot(p, v) == slots' = (p :> v) @@ slots
Goal(t) == prog[t].ps[pc[t].k]
Go(t, w) == pc' = [pc EXCEPT ![t] = w]
(* the read is over *)
Next1(t) == [k |-> pc[t].k + 1, at |-> <<>>, do |-> IF pc[t].k = Reads THEN "end" ELSE "go"]
Step(t) ==
  LET w == pc[t]
      nxt == SubSeq(Goal(t), 1, Len(w.at) + 1)
  IN CASE w.do = "go" /\ w.at # Goal(t) ->
            \* load the next child
            CASE Slot(nxt) = -1 -> SetSlot(nxt, t) /\ Go(t, [w EXCEPT !.do = "fill"]) /\ UNCHANGED <<flags, tree>>
              [] Slot(nxt) = 0 -> Go(t, [w EXCEPT !.at = nxt]) /\ UNCHANGED <<slots, flags, tree>>
              [] OTHER -> FALSE
       [] w.do = "fill" -> /\ SetSlot(nxt, 0)
                           /\ Go(t, IF mode = "load" THEN [w EXCEPT !.do = "note"] ELSE [w EXCEPT !.do = "go", !.at = nxt])
                           /\ UNCHANGED <<flags, tree>>
       [] w.do = "note" -> /\ tree' = IF alive THEN tree \cup {At(T, Root, nxt)} ELSE tree
                           /\ Go(t, [w EXCEPT !.do = "go", !.at = nxt]) /\ UNCHANGED <<slots, flags>>
       [] w.do = "go" /\ w.at = Goal(t) ->
            \* access the data
            /\ Go(t, IF prog[t].data /\ mode = "data" /\ w.at \notin flags THEN [w EXCEPT !.do = "report"] ELSE Next1(t))
            /\ UNCHANGED <<slots, flags, tree>>
       [] w.do = "report" -> /\ tree' = IF alive THEN tree \cup {At(T, Root, w.at)} ELSE tree
                             /\ Go(t, [w EXCEPT !.do = "flag"]) /\ UNCHANGED <<slots, flags>>
       [] w.do = "flag" -> flags' = flags \cup {w.at} /\ Go(t, Next1(t)) /\ UNCHANGED <<slots, tree>>
       [] OTHER -> FALSE
Drop1 == MayDrop /\ alive /\ prog # <<>> /\ alive' = FALSE /\ UNCHANGED <<mode, prog, pc, slots, flags, tree>>
Next == Choose \/ Drop1 \/ (prog # <<>> /\ \E t \in Threads : Step(t) /\ UNCHANGED <<mode, prog, alive>>)
Over == prog # <<>> /\ \A t \in Threads : pc[t].do = "end"

PsOf(t) == {prog[t].ps[k] : k \in 1..Reads}
Wanted == IF mode = "load" THEN {Root} \cup UNION {UNION {OnPath(T, Root, p) : p \in PsOf(t)} : t \in Threads}
          ELSE UNION {IF prog[t].data THEN {At(T, Root, p) : p \in PsOf(t)} ELSE {} : t \in Threads}
(* nothing is recorded that nobody reads, and in the end everything is *)
Never == prog # <<>> => tree \subseteq Wanted
Exact == Over /\ alive => tree = Wanted
(* nobody waits for ever *)
NoJam == prog # <<>> /\ ~Over => \E t \in Threads : ENABLED Step(t)
(* once a data access is over, it is on record *)
Done(t) == {prog[t].ps[k] : k \in 1..(pc[t].k - 1)}
Prompt == prog # <<>> /\ alive /\ mode = "data" => \A t \in Threads : prog[t].data => \A p \in Done(t) : At(T, Root, p) \in tree

CellOp(v, refs) == [op |-> "cell", x |-> 0, v |-> v, refs |-> refs]
Gen == ~(prog # <<>> /\ pc = [t \in Threads |-> Start] /\ alive)
       \/ PrintT("GEN " \o ToJson([cfg |-> [none |-> 0], ev |-> <<CellOp("1", <<>>), CellOp("01", <<1>>), CellOp("001", <<2, 2, 1>>),
              [op |-> "par", c |-> 3, mode |-> mode, jobs |-> [t \in Threads |-> <<prog[t].ps, prog[t].data>>]]>>]))
=============================================================================
