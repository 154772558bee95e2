----------------------------- MODULE Life_Trace -----------------------------
EXTENDS Life, Bits, TraceRun

SInit(tr) == [nodes |-> <<>>, hs |-> <<>>]
(* what is seen after an operation: which cells can still be had, or the space in use *)
Seen(tr, s) == IF tr.cfg.weak
               THEN LET a == Alive(s) IN [j \in 1..Len(s.nodes) |-> IF s.nodes[j].view THEN "-" ELSE IF j \in a THEN "1" ELSE "0"]
               ELSE Space(s.nodes, Alive(s))
Same(tr, s, x) == IF tr.cfg.weak
                  THEN LET w == Seen(tr, s) IN Len(x) = Len(w) /\ \A j \in 1..Len(w) : BitAt(x, j) = w[j]
                  ELSE x = Seen(tr, s)
Check(tr, s, ev) == IF ev.r[1] = "ok" /\ Same(tr, s, ev.r[2]) THEN <<s, "">>
                    ELSE <<s, "expected " \o ToString(Seen(tr, s))>>
(* a new object; what it occupies is learned when it is made *)
Create(tr, s, ev, k, view) ==
  IF ev.r[1] # "ok" THEN <<s, "expected a cell">>
  ELSE LET old == IF tr.cfg.weak THEN <<0, 0>> ELSE Space(s.nodes, Alive(s))
           c == IF tr.cfg.weak THEN <<0, 0>> ELSE <<ev.r[2][1] - old[1], ev.r[2][2] - old[2]>>
           s2 == [nodes |-> Append(s.nodes, Node(k, view, c)), hs |-> Append(s.hs, Len(s.nodes) + 1)]
       IN  IF ~tr.cfg.weak /\ (c[1] < 0 \/ c[2] < 0 \/ (~view /\ c[1] = 0)) THEN <<s, "a cell takes space">>
           ELSE Check(tr, s2, ev)
Handle(s, n) == [s EXCEPT !.hs = Append(@, n)]
Gone(s, cs) == [s EXCEPT !.hs = [j \in 1..Len(s.hs) |-> IF j \in cs THEN 0 ELSE s.hs[j]]]

SStep(tr, s, ev) ==
  CASE ev.op = "cell" -> Create(tr, s, ev, [j \in 1..Len(ev.refs) |-> s.hs[ev.refs[j]]], FALSE)
    [] ev.op = "boc" -> Create(tr, s, ev, <<>>, FALSE)
    [] ev.op \in {"clone", "parts"} -> Check(tr, Handle(s, s.hs[ev.c]), ev)
    [] ev.op = "child" ->
         LET n == s.nodes[s.hs[ev.c]] IN
         IF n.view THEN Create(tr, s, ev, <<s.nodes[n.k[1]].k[ev.i]>>, TRUE)
         ELSE Check(tr, Handle(s, n.k[ev.i]), ev)
    [] ev.op \in {"virt", "track"} -> Create(tr, s, ev, <<s.hs[ev.c]>>, TRUE)
    [] ev.op = "untrack" -> Check(tr, Gone(Handle(s, s.nodes[s.hs[ev.c]].k[1]), {ev.c}), ev)
    [] ev.op = "up" ->
         IF ev.n \in Alive(s) /\ tr.cfg.weak THEN Check(tr, Handle(s, ev.n), ev)
         ELSE IF ev.r = <<"none">> THEN <<s, "">> ELSE <<s, "expected that it is gone">>
    [] ev.op = "drop" -> Check(tr, Gone(s, {ev.c}), ev)
    [] ev.op = "drops" -> Check(tr, Gone(s, {ev.cs[j] : j \in 1..Len(ev.cs)}), ev)
    [] ev.op = "deep" -> IF ev.r = <<"ok", 4, 0, 0>> THEN <<s, "">> ELSE <<s, "expected that it is built, dropped and nothing is left">>
    [] ev.op = "churn" -> IF ev.r = <<"ok", TRUE, 0, 0>> THEN <<s, "">> ELSE <<s, "expected that nothing is left">>
    [] OTHER -> <<s, "unknown operation">>
=============================================================================
