------------------------------ MODULE Drop_MC ------------------------------
(***************************************************************************)
(* How trees are dropped: the loop which turns the first reference of      *)
(* every cell on the way down into a link to its parent, run by several    *)
(* threads on the same cells.  A cell is changed only by who sees that it  *)
(* holds the only handle.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,       \* cells
          R,       \* references of a cell, at most
          Threads, \* each of them drops some handles
          H,       \* handles each of them drops, at most
          Keep,    \* handles nobody drops, at most
          Depth    \* calls inside of each other, at most

Nodes == 1..N
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Graphs == {g \in [Nodes -> SeqsUpTo(Nodes, R)] : \A x \in Nodes : \A j \in 1..Len(g[x]) : g[x][j] < x}
Occur(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
RECURSIVE From(_, _)
From(g, S) == LET T == S \cup UNION {{g[x][j] : j \in 1..Len(g[x])} : x \in S} IN IF T = S THEN S ELSE From(g, T)
Sum(f(_), S) == LET RECURSIVE Go(_)
                    Go(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f(x) + Go(X \ {x})
                IN  Go(S)

Counts(g, k, h) == [x \in Nodes |-> Occur(k, x) + Sum(LAMBDA th : Occur(h[th], x), Threads) + Sum(LAMBDA y : Occur(g[y], x), Nodes)]

(* --algorithm Drop
variables graph = <<>>, kept = <<>>, held = <<>>, ref = <<>>, rc = <<>>, wf = <<>>, freed = {}, ready = FALSE;

procedure Release(x)
variables i = 1, c = 0, t = 0;
begin
R1: assert x \notin freed /\ rc[x] > 0;
    rc[x] := rc[x] - 1;
    if rc[x] # 0 then return; end if;
R3: while i <= Len(ref[x]) do
      if i = 1 /\ wf[x] then i := i + 1;
      else
        c := ref[x][i];
        assert c \notin freed;
R4:     if rc[c] = 1 /\ Len(ref[c]) > 0 /\ ~wf[c] then
          wf[c] := TRUE;
          call Main(ref[c][1]);
R5:       while Len(ref[c]) > 1 do
            t := ref[c][Len(ref[c])];
            ref[c] := SubSeq(ref[c], 1, Len(ref[c]) - 1);
            call Main(t);
          end while;
        end if;
R6:     call Release(c);
R7:     i := i + 1;
      end if;
    end while;
    assert x \notin freed;
    freed := freed \cup {x};
    return;
end procedure;

procedure Main(p)
variables cur = 0, anc = 0, child = 0;
begin
M1: assert p \notin freed;
    if rc[p] = 1 /\ Len(ref[p]) > 0 /\ ~wf[p] then
      wf[p] := TRUE;
      cur := ref[p][1];
    else
      call Release(p);
      goto M9;
    end if;
M2: assert cur \notin freed;
    if rc[cur] = 1 then
      if Len(ref[cur]) > 0 /\ ~wf[cur] then
        ref[cur][1] := p || p := cur || cur := ref[cur][1];
        goto M2;
      else
        call Release(cur);
M3:     cur := 0;
      end if;
    end if;
M4: anc := p;
M5: assert anc \notin freed;
    if rc[anc] = 1 /\ Len(ref[anc]) > 1 then
      child := ref[anc][Len(ref[anc])];
      ref[anc] := SubSeq(ref[anc], 1, Len(ref[anc]) - 1);
      p := anc;
      if cur # 0 then call Release(cur); end if;
M6:   cur := child;
      goto M2;
    elsif rc[anc] = 1 /\ Len(ref[anc]) = 1 /\ ~wf[anc] then
      child := ref[anc][1];
      wf[anc] := TRUE;
      call Release(anc);
M7:   anc := child;
      goto M5;
    else
      call Release(anc);
M8:   if cur # 0 then call Release(cur); end if;
    end if;
M9: return;
end procedure;

process Pick = 0
begin
P1: with g \in Graphs, k \in SeqsUpTo(Nodes, Keep), h \in [Threads -> SeqsUpTo(Nodes, H)] do
      await \A th \in Threads : Len(h[th]) > 0;
      await From(g, {k[j] : j \in 1..Len(k)} \cup UNION {{h[th][j] : j \in 1..Len(h[th])} : th \in Threads}) = Nodes;
      graph := g; kept := k; held := h; ref := g;
      rc := Counts(g, k, h);
      wf := [z \in Nodes |-> FALSE];
    end with;
    ready := TRUE;
end process;

process Th \in Threads
variable n = 1;
begin
T1: await ready;
T2: while n <= Len(held[self]) do
      call Release(held[self][n]);
T3:   n := n + 1;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
CONSTANT defaultInitValue
VARIABLES pc, graph, kept, held, ref, rc, wf, freed, ready, stack, x, i, c, t,
          p, cur, anc, child, n

vars == << pc, graph, kept, held, ref, rc, wf, freed, ready, stack, x, i, c,
           t, p, cur, anc, child, n >>

ProcSet == {0} \cup (Threads)

Init == (* Global variables *)
        /\ graph = <<>>
        /\ kept = <<>>
        /\ held = <<>>
        /\ ref = <<>>
        /\ rc = <<>>
        /\ wf = <<>>
        /\ freed = {}
        /\ ready = FALSE
        (* Procedure Release *)
        /\ x = [ self \in ProcSet |-> defaultInitValue]
        /\ i = [ self \in ProcSet |-> 1]
        /\ c = [ self \in ProcSet |-> 0]
        /\ t = [ self \in ProcSet |-> 0]
        (* Procedure Main *)
        /\ p = [ self \in ProcSet |-> defaultInitValue]
        /\ cur = [ self \in ProcSet |-> 0]
        /\ anc = [ self \in ProcSet |-> 0]
        /\ child = [ self \in ProcSet |-> 0]
        (* Process Th *)
        /\ n = [self \in Threads |-> 1]
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self = 0 -> "P1"
                                        [] self \in Threads -> "T1"]

R1(self) == /\ pc[self] = "R1"
            /\ Assert(x[self] \notin freed /\ rc[x[self]] > 0,
                      "Failure of assertion at line 34, column 5.")
            /\ rc' = [rc EXCEPT ![x[self]] = rc[x[self]] - 1]
            /\ IF rc'[x[self]] # 0
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ i' = [i EXCEPT ![self] = Head(stack[self]).i]
                       /\ c' = [c EXCEPT ![self] = Head(stack[self]).c]
                       /\ t' = [t EXCEPT ![self] = Head(stack[self]).t]
                       /\ x' = [x EXCEPT ![self] = Head(stack[self]).x]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "R3"]
                       /\ UNCHANGED << stack, x, i, c, t >>
            /\ UNCHANGED << graph, kept, held, ref, wf, freed, ready, p, cur,
                            anc, child, n >>

R3(self) == /\ pc[self] = "R3"
            /\ IF i[self] <= Len(ref[x[self]])
                  THEN /\ IF i[self] = 1 /\ wf[x[self]]
                             THEN /\ i' = [i EXCEPT ![self] = i[self] + 1]
                                  /\ pc' = [pc EXCEPT ![self] = "R3"]
                                  /\ c' = c
                             ELSE /\ c' = [c EXCEPT ![self] = ref[x[self]][i[self]]]
                                  /\ Assert(c'[self] \notin freed,
                                            "Failure of assertion at line 41, column 9.")
                                  /\ pc' = [pc EXCEPT ![self] = "R4"]
                                  /\ i' = i
                       /\ UNCHANGED << freed, stack, x, t >>
                  ELSE /\ Assert(x[self] \notin freed,
                                 "Failure of assertion at line 55, column 5.")
                       /\ freed' = (freed \cup {x[self]})
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ i' = [i EXCEPT ![self] = Head(stack[self]).i]
                       /\ c' = [c EXCEPT ![self] = Head(stack[self]).c]
                       /\ t' = [t EXCEPT ![self] = Head(stack[self]).t]
                       /\ x' = [x EXCEPT ![self] = Head(stack[self]).x]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, ready, p, cur, anc,
                            child, n >>

R4(self) == /\ pc[self] = "R4"
            /\ IF rc[c[self]] = 1 /\ Len(ref[c[self]]) > 0 /\ ~wf[c[self]]
                  THEN /\ wf' = [wf EXCEPT ![c[self]] = TRUE]
                       /\ /\ p' = [p EXCEPT ![self] = ref[c[self]][1]]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Main",
                                                                   pc        |->  "R5",
                                                                   cur       |->  cur[self],
                                                                   anc       |->  anc[self],
                                                                   child     |->  child[self],
                                                                   p         |->  p[self] ] >>
                                                               \o stack[self]]
                       /\ cur' = [cur EXCEPT ![self] = 0]
                       /\ anc' = [anc EXCEPT ![self] = 0]
                       /\ child' = [child EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "M1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "R6"]
                       /\ UNCHANGED << wf, stack, p, cur, anc, child >>
            /\ UNCHANGED << graph, kept, held, ref, rc, freed, ready, x, i, c,
                            t, n >>

R5(self) == /\ pc[self] = "R5"
            /\ IF Len(ref[c[self]]) > 1
                  THEN /\ t' = [t EXCEPT ![self] = ref[c[self]][Len(ref[c[self]])]]
                       /\ ref' = [ref EXCEPT ![c[self]] = SubSeq(ref[c[self]], 1, Len(ref[c[self]]) - 1)]
                       /\ /\ p' = [p EXCEPT ![self] = t'[self]]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Main",
                                                                   pc        |->  "R5",
                                                                   cur       |->  cur[self],
                                                                   anc       |->  anc[self],
                                                                   child     |->  child[self],
                                                                   p         |->  p[self] ] >>
                                                               \o stack[self]]
                       /\ cur' = [cur EXCEPT ![self] = 0]
                       /\ anc' = [anc EXCEPT ![self] = 0]
                       /\ child' = [child EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "M1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "R6"]
                       /\ UNCHANGED << ref, stack, t, p, cur, anc, child >>
            /\ UNCHANGED << graph, kept, held, rc, wf, freed, ready, x, i, c,
                            n >>

R6(self) == /\ pc[self] = "R6"
            /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Release",
                                                        pc        |->  "R7",
                                                        i         |->  i[self],
                                                        c         |->  c[self],
                                                        t         |->  t[self],
                                                        x         |->  x[self] ] >>
                                                    \o stack[self]]
               /\ x' = [x EXCEPT ![self] = c[self]]
            /\ i' = [i EXCEPT ![self] = 1]
            /\ c' = [c EXCEPT ![self] = 0]
            /\ t' = [t EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "R1"]
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready, p,
                            cur, anc, child, n >>

R7(self) == /\ pc[self] = "R7"
            /\ i' = [i EXCEPT ![self] = i[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "R3"]
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready,
                            stack, x, c, t, p, cur, anc, child, n >>

Release(self) == R1(self) \/ R3(self) \/ R4(self) \/ R5(self) \/ R6(self)
                    \/ R7(self)

M1(self) == /\ pc[self] = "M1"
            /\ Assert(p[self] \notin freed,
                      "Failure of assertion at line 63, column 5.")
            /\ IF rc[p[self]] = 1 /\ Len(ref[p[self]]) > 0 /\ ~wf[p[self]]
                  THEN /\ wf' = [wf EXCEPT ![p[self]] = TRUE]
                       /\ cur' = [cur EXCEPT ![self] = ref[p[self]][1]]
                       /\ pc' = [pc EXCEPT ![self] = "M2"]
                       /\ UNCHANGED << stack, x, i, c, t >>
                  ELSE /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Release",
                                                                   pc        |->  "M9",
                                                                   i         |->  i[self],
                                                                   c         |->  c[self],
                                                                   t         |->  t[self],
                                                                   x         |->  x[self] ] >>
                                                               \o stack[self]]
                          /\ x' = [x EXCEPT ![self] = p[self]]
                       /\ i' = [i EXCEPT ![self] = 1]
                       /\ c' = [c EXCEPT ![self] = 0]
                       /\ t' = [t EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "R1"]
                       /\ UNCHANGED << wf, cur >>
            /\ UNCHANGED << graph, kept, held, ref, rc, freed, ready, p, anc,
                            child, n >>

M2(self) == /\ pc[self] = "M2"
            /\ Assert(cur[self] \notin freed,
                      "Failure of assertion at line 71, column 5.")
            /\ IF rc[cur[self]] = 1
                  THEN /\ IF Len(ref[cur[self]]) > 0 /\ ~wf[cur[self]]
                             THEN /\ /\ cur' = [cur EXCEPT ![self] = ref[cur[self]][1]]
                                     /\ p' = [p EXCEPT ![self] = cur[self]]
                                     /\ ref' = [ref EXCEPT ![cur[self]][1] = p[self]]
                                  /\ pc' = [pc EXCEPT ![self] = "M2"]
                                  /\ UNCHANGED << stack, x, i, c, t >>
                             ELSE /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Release",
                                                                              pc        |->  "M3",
                                                                              i         |->  i[self],
                                                                              c         |->  c[self],
                                                                              t         |->  t[self],
                                                                              x         |->  x[self] ] >>
                                                                          \o stack[self]]
                                     /\ x' = [x EXCEPT ![self] = cur[self]]
                                  /\ i' = [i EXCEPT ![self] = 1]
                                  /\ c' = [c EXCEPT ![self] = 0]
                                  /\ t' = [t EXCEPT ![self] = 0]
                                  /\ pc' = [pc EXCEPT ![self] = "R1"]
                                  /\ UNCHANGED << ref, p, cur >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "M4"]
                       /\ UNCHANGED << ref, stack, x, i, c, t, p, cur >>
            /\ UNCHANGED << graph, kept, held, rc, wf, freed, ready, anc,
                            child, n >>

M3(self) == /\ pc[self] = "M3"
            /\ cur' = [cur EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "M4"]
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready,
                            stack, x, i, c, t, p, anc, child, n >>

M4(self) == /\ pc[self] = "M4"
            /\ anc' = [anc EXCEPT ![self] = p[self]]
            /\ pc' = [pc EXCEPT ![self] = "M5"]
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready,
                            stack, x, i, c, t, p, cur, child, n >>

M5(self) == /\ pc[self] = "M5"
            /\ Assert(anc[self] \notin freed,
                      "Failure of assertion at line 82, column 5.")
            /\ IF rc[anc[self]] = 1 /\ Len(ref[anc[self]]) > 1
                  THEN /\ child' = [child EXCEPT ![self] = ref[anc[self]][Len(ref[anc[self]])]]
                       /\ ref' = [ref EXCEPT ![anc[self]] = SubSeq(ref[anc[self]], 1, Len(ref[anc[self]]) - 1)]
                       /\ p' = [p EXCEPT ![self] = anc[self]]
                       /\ IF cur[self] # 0
                             THEN /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Release",
                                                                              pc        |->  "M6",
                                                                              i         |->  i[self],
                                                                              c         |->  c[self],
                                                                              t         |->  t[self],
                                                                              x         |->  x[self] ] >>
                                                                          \o stack[self]]
                                     /\ x' = [x EXCEPT ![self] = cur[self]]
                                  /\ i' = [i EXCEPT ![self] = 1]
                                  /\ c' = [c EXCEPT ![self] = 0]
                                  /\ t' = [t EXCEPT ![self] = 0]
                                  /\ pc' = [pc EXCEPT ![self] = "R1"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "M6"]
                                  /\ UNCHANGED << stack, x, i, c, t >>
                       /\ wf' = wf
                  ELSE /\ IF rc[anc[self]] = 1 /\ Len(ref[anc[self]]) = 1 /\ ~wf[anc[self]]
                             THEN /\ child' = [child EXCEPT ![self] = ref[anc[self]][1]]
                                  /\ wf' = [wf EXCEPT ![anc[self]] = TRUE]
                                  /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Release",
                                                                              pc        |->  "M7",
                                                                              i         |->  i[self],
                                                                              c         |->  c[self],
                                                                              t         |->  t[self],
                                                                              x         |->  x[self] ] >>
                                                                          \o stack[self]]
                                     /\ x' = [x EXCEPT ![self] = anc[self]]
                                  /\ i' = [i EXCEPT ![self] = 1]
                                  /\ c' = [c EXCEPT ![self] = 0]
                                  /\ t' = [t EXCEPT ![self] = 0]
                                  /\ pc' = [pc EXCEPT ![self] = "R1"]
                             ELSE /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Release",
                                                                              pc        |->  "M8",
                                                                              i         |->  i[self],
                                                                              c         |->  c[self],
                                                                              t         |->  t[self],
                                                                              x         |->  x[self] ] >>
                                                                          \o stack[self]]
                                     /\ x' = [x EXCEPT ![self] = anc[self]]
                                  /\ i' = [i EXCEPT ![self] = 1]
                                  /\ c' = [c EXCEPT ![self] = 0]
                                  /\ t' = [t EXCEPT ![self] = 0]
                                  /\ pc' = [pc EXCEPT ![self] = "R1"]
                                  /\ UNCHANGED << wf, child >>
                       /\ UNCHANGED << ref, p >>
            /\ UNCHANGED << graph, kept, held, rc, freed, ready, cur, anc, n >>

M6(self) == /\ pc[self] = "M6"
            /\ cur' = [cur EXCEPT ![self] = child[self]]
            /\ pc' = [pc EXCEPT ![self] = "M2"]
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready,
                            stack, x, i, c, t, p, anc, child, n >>

M7(self) == /\ pc[self] = "M7"
            /\ anc' = [anc EXCEPT ![self] = child[self]]
            /\ pc' = [pc EXCEPT ![self] = "M5"]
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready,
                            stack, x, i, c, t, p, cur, child, n >>

M8(self) == /\ pc[self] = "M8"
            /\ IF cur[self] # 0
                  THEN /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Release",
                                                                   pc        |->  "M9",
                                                                   i         |->  i[self],
                                                                   c         |->  c[self],
                                                                   t         |->  t[self],
                                                                   x         |->  x[self] ] >>
                                                               \o stack[self]]
                          /\ x' = [x EXCEPT ![self] = cur[self]]
                       /\ i' = [i EXCEPT ![self] = 1]
                       /\ c' = [c EXCEPT ![self] = 0]
                       /\ t' = [t EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "R1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "M9"]
                       /\ UNCHANGED << stack, x, i, c, t >>
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready, p,
                            cur, anc, child, n >>

M9(self) == /\ pc[self] = "M9"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ cur' = [cur EXCEPT ![self] = Head(stack[self]).cur]
            /\ anc' = [anc EXCEPT ![self] = Head(stack[self]).anc]
            /\ child' = [child EXCEPT ![self] = Head(stack[self]).child]
            /\ p' = [p EXCEPT ![self] = Head(stack[self]).p]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready, x, i,
                            c, t, n >>

Main(self) == M1(self) \/ M2(self) \/ M3(self) \/ M4(self) \/ M5(self)
                 \/ M6(self) \/ M7(self) \/ M8(self) \/ M9(self)

P1 == /\ pc[0] = "P1"
      /\ \E g \in Graphs:
           \E k \in SeqsUpTo(Nodes, Keep):
             \E h \in [Threads -> SeqsUpTo(Nodes, H)]:
               /\ \A th \in Threads : Len(h[th]) > 0
               /\ From(g, {k[j] : j \in 1..Len(k)} \cup UNION {{h[th][j] : j \in 1..Len(h[th])} : th \in Threads}) = Nodes
               /\ graph' = g
               /\ kept' = k
               /\ held' = h
               /\ ref' = g
               /\ rc' = Counts(g, k, h)
               /\ wf' = [z \in Nodes |-> FALSE]
      /\ ready' = TRUE
      /\ pc' = [pc EXCEPT ![0] = "Done"]
      /\ UNCHANGED << freed, stack, x, i, c, t, p, cur, anc, child, n >>

Pick == P1

T1(self) == /\ pc[self] = "T1"
            /\ ready
            /\ pc' = [pc EXCEPT ![self] = "T2"]
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready,
                            stack, x, i, c, t, p, cur, anc, child, n >>

T2(self) == /\ pc[self] = "T2"
            /\ IF n[self] <= Len(held[self])
                  THEN /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Release",
                                                                   pc        |->  "T3",
                                                                   i         |->  i[self],
                                                                   c         |->  c[self],
                                                                   t         |->  t[self],
                                                                   x         |->  x[self] ] >>
                                                               \o stack[self]]
                          /\ x' = [x EXCEPT ![self] = held[self][n[self]]]
                       /\ i' = [i EXCEPT ![self] = 1]
                       /\ c' = [c EXCEPT ![self] = 0]
                       /\ t' = [t EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "R1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << stack, x, i, c, t >>
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready, p,
                            cur, anc, child, n >>

T3(self) == /\ pc[self] = "T3"
            /\ n' = [n EXCEPT ![self] = n[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "T2"]
            /\ UNCHANGED << graph, kept, held, ref, rc, wf, freed, ready,
                            stack, x, i, c, t, p, cur, anc, child >>

Th(self) == T1(self) \/ T2(self) \/ T3(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == Pick
           \/ (\E self \in ProcSet: Release(self) \/ Main(self))
           \/ (\E self \in Threads: Th(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
(* in the end exactly the cells nobody can reach are freed, and the others are as they were *)
Live == From(graph, {kept[j] : j \in 1..Len(kept)})
Ended == ready /\ \A th \in Threads : pc[th] = "Done"
FreedExactly == Ended => /\ freed = Nodes \ Live
                         /\ \A u \in Live : ref[u] = graph[u] /\ ~wf[u] /\ rc[u] = Occur(kept, u) + Sum(LAMBDA v : Occur(graph[v], u), Live)
(* a cell somebody can reach is never changed *)
Untouched == ready => \A u \in Live : u \notin freed /\ ref[u] = graph[u] /\ ~wf[u]
(* the stack does not grow with the depth of the tree *)
Shallow == \A th \in Threads : Len(stack[th]) <= Depth
Stuck == Ended \/ ~ready \/ \E th \in Threads : ENABLED Th(th) \/ ENABLED Release(th) \/ ENABLED Main(th)
=============================================================================
