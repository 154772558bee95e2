----------------------------- MODULE Stat_Trace -----------------------------
EXTENDS Stat, TraceRun

(* at: the nodes of the cells made so far, in order *)
SInit(tr) == [ns |-> <<>>, at |-> <<>>, q |-> New(-1)]
Kids(s, ev) == [j \in 1..Len(ev.refs) |-> s.at[ev.refs[j]]]
Put(s, ev, node) ==
  LET n == Intern(s.ns, node) IN
  IF ev.r # <<"ok">> THEN <<s, "expected a cell">>
  ELSE <<[s EXCEPT !.ns = n[1], !.at = Append(@, n[2])], "">>
(* A failed count says nothing but that; the counter is only bounded by its limit from then on. *)
Counted(s, ev, q) ==
  IF q.over
  THEN IF ev.r[1] = "over" /\ ev.r[2] <= q.lim THEN <<q, "">>
       ELSE IF s.over /\ ev.r[1] = "ok" /\ ev.r[2] <= q.lim THEN <<q, "">>
       ELSE <<q, "expected that the limit is hit">>
  ELSE IF ev.r = <<"ok">> \o s.sum THEN <<q, "">> ELSE <<q, "expected " \o ToString(s.sum)>>
Count(s, ev, q0, from, own) ==
  LET q == AddTo(s.ns, q0, from, own)
  IN  Counted([over |-> q0.over, sum |-> Sum(s.ns, q)], ev, q)
Window(s, ev) ==
  LET n == s.ns[s.at[ev.c]] IN <<{n.k[j] : j \in (ev.r0 + 1)..ev.r1}, ev.b1 - ev.b0>>
Keep(s, x) == <<[s EXCEPT !.q = x[1]], x[2]>>
Drop2(s, x) == <<s, x[2]>>
(* the cell an account's storage is counted as: time of the last transaction, balance, state *)
StorageBits(ev) == 64 + (4 + 8 * ev.tok) + 1 + CASE ev.state = "uninit" -> 2 [] ev.state = "frozen" -> 2 + 256 [] OTHER -> 1 + 5
Roots(s, q) == {s.at[q[j]] : j \in 1..Len(q)}

SStep(tr, s, ev) ==
  CASE ev.op = "cell" -> Put(s, ev, Cell1(ev.x, ev.v, Kids(s, ev)))
    [] ev.op = "chain" -> Put(s, ev, Chain(ev.v, ev.n, Kids(s, ev)))
    [] ev.op = "new" -> IF ev.r = <<"ok", 0, 0>> THEN <<[s EXCEPT !.q = New(ev.lim)], "">> ELSE <<s, "expected an empty counter">>
    [] ev.op = "add" -> Keep(s, Count(s, ev, s.q, {s.at[ev.c]}, 0))
    [] ev.op = "addslice" -> LET w == Window(s, ev) IN Keep(s, Count(s, ev, s.q, w[1], w[2]))
    [] ev.op = "of" -> Drop2(s, Count(s, ev, New(ev.lim), {s.at[ev.c]}, 0))
    [] ev.op = "ofslice" -> LET w == Window(s, ev) IN Drop2(s, Count(s, ev, New(ev.lim), w[1], w[2]))
    [] ev.op = "used" ->
         LET q == AddTo(s.ns, New(-1), Roots(s, ev.roots), 0)
             sum == Sum(s.ns, q)
         IN  IF ev.lim >= 0 /\ sum[1] + 1 > ev.lim
             THEN IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected that the limit is hit">>
             ELSE IF ev.r = <<"ok", sum[1] + 1, sum[2] + StorageBits(ev)>> THEN <<s, "">>
             ELSE <<s, "expected " \o ToString(<<sum[1] + 1, sum[2] + StorageBits(ev)>>)>>
    [] OTHER -> <<s, "unknown operation">>
=============================================================================
