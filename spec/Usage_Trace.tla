----------------------------- MODULE Usage_Trace -----------------------------
EXTENDS Usage, TraceRun

SInit(tr) == [hs |-> <<>>, trees |-> <<>>]
Want(s, ev, exp) == IF ev.r = exp THEN <<s, "">> ELSE <<s, "expected " \o ToString(exp)>>
Look(T, n) == <<T[n][1], Len(T[n][2]), Len(T[n][3])>>
Put(T, s, ev, h) == Want([s EXCEPT !.hs = Append(@, h)], ev, <<"ok", h.n, Look(T, h.n)>>)
(* the numbers of the recorded cells, from a string with a mark for each *)
Marked(str) == {j \in 1..Len(str) : BitAt(str, j) = "1"}
Noted(s, ts, ns, what) == [s EXCEPT !.trees = Note(@, ts, ns, what)]
PathNodes(T, n, jobs) == UNION {UNION {OnPath(T, n, jobs[j][1][k]) : k \in 1..Len(jobs[j][1])} : j \in 1..Len(jobs)}
EndNodes(T, n, jobs) == UNION {IF jobs[j][2] THEN {At(T, n, jobs[j][1][k]) : k \in 1..Len(jobs[j][1])} ELSE {} : j \in 1..Len(jobs)}

(* what a dictionary operation answers and reads *)
DictOp(T, n, ev) ==
  LET path == Steps(T, n, 16, ev.k)
      f == Lookup(T, n, ev.k)
      has == f[1] = "ok"
      With(ns) == ns \cup UNION {{T[p][3][j] : j \in 1..Len(T[p][3])} : p \in ns}
      \* removal joins the branch that stays with its parent
      near == With(path)
      \* a reference that is copied was loaded
      Copied(ns) == IF ev.mode = "load" THEN With(ns) ELSE ns
  IN  CASE ev.op = "dget" -> <<IF has THEN <<"ok", f[2]>> ELSE <<"none">>, path, path>>
        [] ev.op = "dset" -> <<<<"ok", TRUE>>, path, Copied(path)>>
        [] ev.op = "ddel" -> <<IF has THEN <<"ok", f[2]>> ELSE <<"none">>, path, Copied(near)>>
        [] ev.op = "diter" -> <<<<"ok", Len(Entries(T, n, 16))>>, Reach(T, {n}), Reach(T, {n})>>

SStep(tr, s, ev) ==
  LET T == tr.cells IN
  CASE ev.op \in {"cell", "dict"} ->
         IF ev.r[1] # "ok" THEN <<s, "expected a cell">>
         ELSE LET n == ev.r[2] IN
              IF ev.op = "cell" /\ T[n] # <<ev.x, ev.v, [j \in 1..Len(ev.refs) |-> s.hs[ev.refs[j]].n]>> THEN <<s, "not that cell">>
              ELSE Put(T, s, ev, Handle(n, <<>>))
    [] ev.op = "tree" -> Want([s EXCEPT !.trees = Append(@, Tree(ev.mode))], ev, <<"ok", 0, TRUE>>)
    [] ev.op = "track" ->
         LET h == s.hs[ev.c] IN Put(T, Noted(s, <<ev.t>>, {h.n}, "load"), ev, Handle(h.n, <<ev.t>> \o h.ts))
    [] ev.op = "ref" ->
         LET h == s.hs[ev.c]
             c == Child(T, h.n, ev.i)
             \* an iterator goes through those before
             ns == {T[h.n][3][j] : j \in IF ev.how = "iter" THEN 1..Min2(ev.i, Len(T[h.n][3])) ELSE {ev.i} \cap (1..Len(T[h.n][3]))}
             s2 == Noted(s, h.ts, ns, "load")
         IN  IF c = 0 THEN Want(s2, ev, <<"none">>) ELSE Put(T, s2, ev, Handle(c, h.ts))
    [] ev.op = "data" ->
         LET h == s.hs[ev.c]
             b == T[h.n][2]
         IN  \* reading no bits need not touch the data
             Want(IF b = "" /\ ev.slice THEN s ELSE Noted(s, h.ts, {h.n}, "data"), ev, <<"ok", b>>)
    [] ev.op = "peek" -> Want(s, ev, <<"ok", Look(T, s.hs[ev.c].n), TRUE>>)
    [] ev.op = "virt" -> Put(T, s, ev, s.hs[ev.c])
    [] ev.op = "untrack" ->
         LET h == s.hs[ev.c] IN
         Put(T, [s EXCEPT !.hs[ev.c] = NoHandle], ev, Handle(h.n, IF h.ts = <<>> THEN <<>> ELSE Tail(h.ts)))
    [] ev.op = "drop" -> Want([s EXCEPT !.hs[ev.c] = NoHandle], ev, <<"ok">>)
    [] ev.op = "dropt" -> Want([s EXCEPT !.trees[ev.t].live = FALSE], ev, <<"ok">>)
    [] ev.op = "subs" -> Want([s EXCEPT !.trees[ev.t].subs = TRUE], ev, <<"ok">>)
    [] ev.op = "addsub" ->
         LET n == s.hs[ev.c].n IN Want([s EXCEPT !.trees[ev.t].sub = @ \cup {n}], ev, <<"ok", n \notin s.trees[ev.t].sub>>)
    [] ev.op = "rec" ->
         LET t == s.trees[ev.t] IN
         IF ev.r[1] = "ok" /\ Marked(ev.r[2]) = t.seen
            /\ (IF t.subs THEN Marked(ev.r[3]) = t.sub ELSE ev.r[3] = Cardinality(t.seen) /\ ev.r[4] = (t.seen = {}))
         THEN <<s, "">> ELSE <<s, "expected the record " \o ToString(t.seen) \o ToString(t.sub)>>
    [] ev.op = "touch" ->
         LET h == s.hs[ev.c] IN Want(Noted(Noted(s, h.ts, Below(T, h.n), "load"), h.ts, Reach(T, {h.n}), "data"), ev, <<"ok">>)
    [] ev.op = "count" ->
         LET h == s.hs[ev.c] IN Want(Noted(s, h.ts, Below(T, h.n), "load"), ev, <<"ok", Cardinality(Reach(T, {h.n}))>>)
    [] ev.op = "proof" ->
         LET n == s.hs[ev.c].n
             t == s.trees[ev.t]
             rs == [j \in 1..Len(ev.paths) |-> IF Has(T, t, n, ev.paths[j]) THEN <<"ok", T[At(T, n, ev.paths[j])][2]>> ELSE <<"cut">>]
         IN  \* there is no proof without its root
             IF n \notin t.seen \cup t.sub THEN IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected an error">>
             ELSE Want(s, ev, <<"ok", rs, TRUE>>)
    [] ev.op = "par" ->
         LET n == s.hs[ev.c].n
             seen == IF ev.mode = "load" THEN {n} \cup PathNodes(T, n, ev.jobs) ELSE EndNodes(T, n, ev.jobs)
         IN  IF ev.r[1] = "ok" /\ Marked(ev.r[2]) = seen THEN <<s, "">> ELSE <<s, "expected the record " \o ToString(seen)>>
    [] ev.op \in {"dget", "dset", "ddel", "diter"} ->
         LET h == s.hs[ev.c]
             x == DictOp(T, h.n, ev)
         IN  IF ev.r[1] = "ok" /\ ev.r[2] = x[1] /\ x[2] \subseteq Marked(ev.r[3]) /\ Marked(ev.r[3]) \subseteq x[3] THEN <<s, "">>
             ELSE <<s, "expected " \o ToString(x)>>
    [] OTHER -> <<s, "unknown operation">>
=============================================================================
