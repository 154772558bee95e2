------------------------------- MODULE Tlb_MC -------------------------------
(***************************************************************************)
(* Values of every type, in every form it can be written, made from the    *)
(* term of the type by pseudo-random choices: what is made can be read,    *)
(* and is what is written for what was read.                               *)
(***************************************************************************)
EXTENDS TlbGen, Json, TLC

CONSTANTS Kinds, Seeds
VARIABLES ty, g, row

AllTypes == DOMAIN Schema \ {"ShardDescription0", "ShardStateUnsplit0", "ShardStateUnsplit1", "ShardStateSplit1"}  \* parts of others
SomeTypes == {"StateInit", "ShardDescription", "Versioned", "ValidatorSet", "MsgInfo"}

(* no alternative is the beginning of another, in any term *)
RECURSIVE Clear(_)
Apart(s) == \A a, b \in 1..Len(s) : a = b \/ ~StartsWith(s[a][1], s[b][1])
Clear(t) == CASE t.k = "q" -> \A j \in 1..Len(t.s) : Clear(t.s[j])
              [] t.k = "alt" -> Apart(t.s) /\ \A j \in 1..Len(t.s) : Clear(t.s[j][3])
              [] t.k = "ver" -> Apart(t.s) /\ \A j \in 1..Len(t.s) : Clear(t.s[j][2])
              [] t.k \in {"opt", "ref"} -> Clear(t.n)
              [] t.k = "if" -> Clear(t.n) /\ Clear(t.e)
              [] t.k = "ty" -> t.t \in DOMAIN Schema
              [] OTHER -> TRUE
ASSUME \A t \in DOMAIN Schema : Clear(Schema[t])

Init == ty = "" /\ g = Start(0) /\ row = 0
Choose == /\ ty = ""
          /\ \E t \in Kinds, seed \in 1..Seeds : ty' = t /\ g' = Turn(Turn(Start(seed))) /\ row' = 0
Make == /\ ty # "" /\ row = 0
        /\ LET e == TLCEval(Some(g, Ty(ty), 0))
               x == Intern(e.T, <<0, e.b, e.r>>)
           IN  /\ e.fit /\ Small(e)
               /\ g' = [e EXCEPT !.T = x[1]]
               /\ row' = x[2]
        /\ UNCHANGED ty
Next == Choose \/ Make

Ready == row # 0
(* a value that is valid is read from any of its forms *)
ReadsBack == Ready => LET e == Read(g.T, ty, row, TRUE) IN e.ok = g.good /\ (e.ok => e.v = g.v)
(* what is written can be told from its parts; the usual form is what is written *)
Usual == g.plain /\ \A j \in 1..Len(g.forms) : LET f == g.forms[j] IN Form(f[1], [v |-> g.v, i |-> f[2]]) = f[3]
WritesBack == (Ready /\ g.good) => LET w == Write(g.T, ty, g.v) IN
                w.i = Len(w.v) /\ (Usual => <<0, w.b, w.r>> = g.T[row] /\ w.fit)
(* nothing is read from less *)
NotLess == (Ready /\ g.good /\ g.T[row][2] # "") =>
  LET less == Append(g.T, [g.T[row] EXCEPT ![2] = Take(@, Len(@) - 1)]) IN ~Read(less, ty, Len(less), FALSE).ok
Variant(r) == <<r>> \o (IF r[2] = "" THEN <<>> ELSE <<[r EXCEPT ![2] = Take(@, Len(@) - 1)]>>)
              \o (IF r[3] = <<>> THEN <<>> ELSE <<[r EXCEPT ![3] = SubSeq(@, 1, Len(@) - 1)], [r EXCEPT ![3] = [j \in 1..Len(@) |-> IF j = 1 THEN 4 ELSE @[j]]]>>)
              \o (IF Len(r[2]) < 1020 THEN <<[r EXCEPT ![2] = @ \o "10"]>> ELSE <<>>)
Gen == ~Ready \/
  LET R == FoldLeft(LAMBDA a, r : LET x == Intern(a[1], r) IN <<x[1], Append(a[2], x[2])>>, <<g.T, <<>>>>, Variant(g.T[row]))
  IN  PrintT("GEN " \o ToJson([cfg |-> [none |-> 0, cells |-> R[1]], ev |-> [j \in 1..Len(R[2]) |-> [op |-> "dec", t |-> ty, cell |-> R[2][j]]]]))
=============================================================================
