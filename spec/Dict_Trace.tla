----------------------------- MODULE Dict_Trace -----------------------------
EXTENDS Dict, TraceRun

SInit(tr) == [r \in 0..3 |-> Empty]

Good(s) == <<s, "">>
(* The result must be exactly `exp`. *)
Want(s, ev, exp) == IF ev.r = exp THEN Good(s) ELSE <<s, "expected " \o ToString(exp)>>
(* The operation must fail and leave its dictionary alone. *)
WantErr(s, ev) == IF ev.r[1] = "err" /\ ev.r[3] = "same" THEN Good(s) ELSE <<s, "expected an error without effect">>
(* The result must be `exp` with a tree for each of `maps` at the places `at`. *)
WantDicts(s, ev, exp, at, maps, tr) ==
  IF ev.r[1] # "ok" THEN <<s, "expected " \o ToString(exp)>>
  ELSE IF Len(ev.r) # Len(exp) \/ \E q \in 1..Len(exp) : q \notin at /\ ev.r[q] # exp[q]
  THEN <<s, "expected " \o ToString(exp)>>
  ELSE LET wrong == {q \in at : ~IsDict(maps[q], tr.cfg.n, ev.r[q], tr.cells, tr.cfg.aug = 1)}
       IN  IF wrong = {} THEN Good(s) ELSE <<s, "not the tree of " \o ToString([q \in wrong |-> maps[q]])>>

Free(ev) == ev.L = "free"
Has(ev, f) == f \in DOMAIN ev
Failed(ev) == Has(ev, "fail")
Cost(ev, g, b) == IF Free(ev) THEN <<g, b>> ELSE ev.r[Len(ev.r)]
(* what reading costs depends on the algorithm; only get is fixed by the path *)
Rest(ev) == ev.r[Len(ev.r)]
Opt(m, k) == IF k \in Keys(m) THEN <<m[k]>> ELSE <<>>
Entry(m, ks) == IF ks = <<>> THEN <<>> ELSE <<ks[1], m[ks[1]]>>

SStep(tr, s, ev) ==
  LET n == tr.cfg.n
      aug == tr.cfg.aug = 1
      kind == IF ev.L \in {"typed", "aug"} THEN tr.cfg.kind ELSE ""
      N == Len(ev.r)
      m == IF Has(ev, "d") THEN s[ev.d] ELSE Empty
      m2 == IF Has(ev, "d2") THEN s[ev.d2] ELSE Empty
      badkey == Has(ev, "k") /\ ev.op \notin {"split", "remsub", "subdict"} /\ Len(ev.k) # n
  IN
  IF ev.r[1] = "panic" THEN <<s, "panicked">>
  ELSE IF ev.r[1] = "tool" THEN <<s, "the harness does not know this operation">>
  ELSE IF Failed(ev) /\ ev.r[1] = "err" /\ ev.r[2] = "Cancelled" THEN WantErr(s, ev)
  ELSE IF badkey THEN WantErr(s, ev)
  ELSE CASE ev.op = "copy" -> Good([s EXCEPT ![ev.t] = m])
  [] ev.op = "clear" -> Good([s EXCEPT ![ev.d] = Empty])
  [] ev.op = "dump" -> WantDicts(s, ev, <<"ok", 0>>, {2}, <<0, m>>, tr)
  [] ev.op \in {"ins", "insown"} ->
       LET can == CanSet(m, ev.k, ev.m)
           new == IF can THEN Put(m, ev.k, ev.v) ELSE m
           vis == Visited(m, ev.k)
           split == ev.k \notin Keys(m) /\ Keys(m) # {}
           cost == Cost(ev, vis, IF ~can THEN 0 ELSE IF Keys(m) = {} THEN 1 ELSE IF split THEN vis + 2 ELSE vis)
           s2 == [s EXCEPT ![ev.d] = new]
       IN  IF can /\ ~Storable(new, n, aug) THEN WantErr(s, ev)
           ELSE IF aug THEN WantDicts(s2, ev, <<"ok", can, 0, RootExtra(new)>>, {3}, <<0, 0, new>>, tr)
           ELSE IF ev.op = "ins" THEN WantDicts(s2, ev, <<"ok", can, 0, cost>>, {3}, <<0, 0, new>>, tr)
           ELSE WantDicts(s2, ev, <<"ok", can, Opt(m, ev.k), 0, cost>>, {4}, <<0, 0, 0, new>>, tr)
  [] ev.op = "rem" ->
       LET has == ev.k \in Keys(m)
           new == IF has THEN Del(m, ev.k) ELSE m
           vis == Visited(m, ev.k)
           cost == Cost(ev, IF has /\ vis > 1 THEN vis + 1 ELSE vis, IF has /\ vis > 1 THEN vis - 1 ELSE 0)
           s2 == [s EXCEPT ![ev.d] = new]
       IN  IF ~Storable(new, n, aug) THEN WantErr(s, ev)
           ELSE IF aug THEN WantDicts(s2, ev, <<"ok", Opt(m, ev.k), 0, RootExtra(new)>>, {3}, <<0, 0, new>>, tr)
           ELSE WantDicts(s2, ev, <<"ok", Opt(m, ev.k), 0, cost>>, {3}, <<0, 0, new>>, tr)
  (* everything under a prefix *)
  [] ev.op = "remsub" ->
       LET S == {k \in Keys(m) : StartsWith(ev.k, k)}
           new == MRestrict(m, Keys(m) \ S)
           s2 == [s EXCEPT ![ev.d] = new]
       IN  IF Len(ev.k) > n \/ ~Storable(new, n, aug) THEN WantErr(s, ev)
           ELSE IF aug THEN WantDicts(s2, ev, <<"ok", S # {}, 0, RootExtra(new)>>, {3}, <<0, 0, new>>, tr)
           ELSE WantDicts(s2, ev, <<"ok", S # {}, 0, Rest(ev)>>, {3}, <<0, 0, new>>, tr)
  (* the keys with a prefix, as they are or without it *)
  [] ev.op = "subdict" ->
       LET S == {k \in Keys(m) : StartsWith(ev.k, k)}
           sub == MRestrict(m, S)
       IN  IF ev.r[1] = "ok" /\ (IF S = {} THEN ev.r[2] = 0
                                 ELSE IsDict(sub, n, ev.r[2], tr.cells, FALSE) \/ Canon(sub, S, Len(ev.k), n, ev.r[2], tr.cells, FALSE))
           THEN Good(s) ELSE <<s, "not the dictionary under the prefix">>
  (* at the first bit: the branches of the root if they differ there, else the whole on its side *)
  [] ev.op = "splitraw" ->
       LET S(b) == {k \in Keys(m) : BitAt(k, 1) = b}
           Both == S("0") # {} /\ S("1") # {}
           Half(b, x) == IF S(b) = {} THEN x = 0 ELSE Canon(m, S(b), IF Both THEN 1 ELSE 0, n, x, tr.cells, FALSE)
       IN  IF ev.r[1] = "ok" /\ ev.r[2] = (IF Both THEN n - 1 ELSE n) /\ Half("0", ev.r[3]) /\ Half("1", ev.r[4])
           THEN Good(s) ELSE <<s, "not the two sides">>
  [] ev.op = "rembound" ->
       LET none == Keys(m) = {}
           k == Bound(Keys(m), ev.max, ev.signed)
           new == IF none THEN m ELSE Del(m, k)
           vis == IF none THEN 0 ELSE Visited(m, k)
           cost == Cost(ev, IF vis > 1 THEN vis + 1 ELSE vis, IF vis > 1 THEN vis - 1 ELSE 0)
       IN  IF ~Storable(new, n, aug) THEN WantErr(s, ev)
           ELSE WantDicts([s EXCEPT ![ev.d] = new], ev,
                          <<"ok", IF none THEN <<>> ELSE <<k, m[k]>>, 0, cost>>, {3}, <<0, 0, new>>, tr)
  [] ev.op \in {"get", "getown"} ->
       IF aug THEN Want(s, ev, <<"ok", Opt(m, ev.k)>>)
       ELSE Want(s, ev, <<"ok", Opt(m, ev.k), Cost(ev, Visited(m, ev.k), 0)>>)
  [] ev.op = "contains" -> Want(s, ev, <<"ok", ev.k \in Keys(m)>>)
  [] ev.op = "empty" -> Want(s, ev, <<"ok", Keys(m) = {}>>)
  [] ev.op = "eq" -> Want(s, ev, <<"ok", m = m2>>)
  [] ev.op = "find" -> Want(s, ev, <<"ok", Entry(m, Nearest(Keys(m), ev.k, ev.max, ev.incl, ev.signed)), Rest(ev)>>)
  [] ev.op \in {"bound", "boundown"} ->
       LET ks == IF Keys(m) = {} THEN <<>> ELSE <<Bound(Keys(m), ev.max, ev.signed)>>
       IN  Want(s, ev, <<"ok", Entry(m, ks), Cost(ev, IF ks = <<>> THEN 0 ELSE Visited(m, ks[1]), 0)>>)
  [] ev.op = "iter" ->
       LET ks == InOrder(Keys(m), ev.rev, ev.signed)
       IN  Want(s, ev, <<"ok", [j \in 1..Len(ks) |->
                CASE ev.kind \in {"iter", "owned"} -> <<ks[j], m[ks[j]]>>
                  [] ev.kind = "keys" -> ks[j]
                  [] OTHER -> m[ks[j]]]>>)
  [] ev.op = "union" ->
       LET ks == InOrder(Keys(m) \cup Keys(m2), ev.rev, ev.signed)
       IN  Want(s, ev, <<"ok", [j \in 1..Len(ks) |-> <<ks[j], Opt(m, ks[j]), Opt(m2, ks[j])>>]>>)
  [] ev.op = "build" ->
       LET new == BuildMap(ev.items)
           s2 == [s EXCEPT ![ev.t] = new]
       IN  IF (~Ascending(TypeOrder(kind, ev.items)) /\ ~ev.alt) \/ ~Storable(new, n, aug)
           THEN IF ev.r[1] = "err" THEN Good(s) ELSE <<s, "expected an error">>
           ELSE IF aug THEN WantDicts(s2, ev, <<"ok", 0, RootExtra(new)>>, {2}, <<0, new>>, tr)
           ELSE WantDicts(s2, ev, <<"ok", 0>>, {2}, <<0, new>>, tr)
  [] ev.op = "modify" ->
       LET items == TypeOrder(kind, ev.items)
           new == Modify(m, ev.items, 1)
           s2 == [s EXCEPT ![ev.d] = new]
           unsorted == IF Keys(m) # {} THEN ~StrictlyAscending(items)
                       ELSE ~StrictlyAscending(SelectSeq(items, LAMBDA it : it[2] # <<>>))
       IN  IF Has(ev, "stop") \/ unsorted \/ ~Storable(new, n, aug) THEN WantErr(s, ev)
           ELSE IF ev.r[1] = "ok" /\ ~ev.r[2] /\ new # m THEN <<s, "reports no change">>
           ELSE IF aug THEN WantDicts(s2, ev, <<"ok", ev.r[2], 0, RootExtra(new)>>, {3}, <<0, 0, new>>, tr)
           ELSE WantDicts(s2, ev, <<"ok", ev.r[2], 0>>, {3}, <<0, 0, new>>, tr)
  [] ev.op = "split" ->
       LET l == SplitAt(m, ev.k, "0")
           r == SplitAt(m, ev.k, "1")
           s2 == [[s EXCEPT ![ev.t] = l] EXCEPT ![ev.t2] = r]
       IN  IF ~SplitOk(m, n, ev.k) \/ ~Storable(l, n, aug) \/ ~Storable(r, n, aug) THEN WantErr(s, ev)
           ELSE IF aug THEN WantDicts(s2, ev, <<"ok", 0, 0, RootExtra(l), RootExtra(r)>>, {2, 3}, <<0, l, r>>, tr)
           ELSE WantDicts(s2, ev, <<"ok", 0, 0>>, {2, 3}, <<0, l, r>>, tr)
  [] ev.op = "mergesib" ->
       LET new == Union(m, m2)
           s2 == [s EXCEPT ![ev.t] = new]
       IN  IF ~Siblings(m, m2) \/ ~Storable(new, n, aug) THEN WantErr(s, ev)
           ELSE IF aug THEN WantDicts(s2, ev, <<"ok", 0, RootExtra(new)>>, {2}, <<0, new>>, tr)
           ELSE WantDicts(s2, ev, <<"ok", 0>>, {2}, <<0, new>>, tr)
  [] ev.op = "merge" ->
       LET new == Union(m, m2)
           (* while it is being merged in, a value may need a longer label than in the end *)
           tight == \E k \in Keys(m2) : 13 + n + Len(m2[k][1]) > 1023
       IN  IF ev.r[1] = "err" /\ tight THEN WantErr(s, ev)
           ELSE WantDicts([s EXCEPT ![ev.d] = new], ev, <<"ok", 0>>, {2}, <<0, new>>, tr)
  (* behind the presence bit *)
  [] ev.op = "ser" ->
       IF aug
       THEN LET x == RootExtra(m)
                root == IF Keys(m) = {} THEN <<>> ELSE <<ev.r[3]>>
                cell == tr.cells[ev.r[2]]
            IN  IF ev.r[1] = "ok" /\ ~ /\ cell[1] = 0
                                      /\ cell[2] = (IF Keys(m) = {} THEN "0" ELSE "1") \o Nat2Bits(x, 16)
                                      /\ Len(cell[3]) >= Len(root) /\ Take(cell[3], Len(root)) = root
                                      /\ XRefsAre(x, Drop(cell[3], Len(root)), tr.cells)
                THEN <<s, "not the dictionary behind a bit, followed by its extra">>
                ELSE WantDicts(s, ev, <<"ok", ev.r[2], 0, x>>, {3}, <<0, 0, m>>, tr)
       ELSE LET cell == IF Keys(m) = {} THEN <<0, "0", <<>>>> ELSE <<0, "1", <<ev.r[3]>>>>
            IN  IF ev.r[1] = "ok" /\ tr.cells[ev.r[2]] # cell THEN <<s, "expected " \o ToString(cell)>>
                ELSE WantDicts(s, ev, <<"ok", ev.r[2], 0>>, {3}, <<0, 0, m>>, tr)
  (* the root inlined in a larger cell: a fork leaves the rest alone, a leaf takes it *)
  [] ev.op = "loadroot" ->
       LET leaf == Cardinality(Keys(m)) = 1
           k == CHOOSE x \in Keys(m) : TRUE
           got == IF leaf THEN Put(Empty, k, [m[k] EXCEPT ![1] = @ \o ev.v[1], ![2] = @ \o ev.v[2]]) ELSE m
           rest == IF leaf THEN <<"", <<>>>> ELSE <<ev.v[1], ev.v[2]>>
       IN  IF Keys(m) = {} THEN Good(s)
           ELSE IF ev.r[1] = "err" THEN
                (* the enclosing cell cannot be made *)
                IF ev.r[3] = "same" THEN Good(s) ELSE <<s, "failed with an effect">>
           ELSE IF aug THEN WantDicts(s, ev, <<"ok", 0, rest, RootExtra(m)>>, {2}, <<0, got>>, tr)
           ELSE WantDicts(s, ev, <<"ok", 0, rest>>, {2}, <<0, got>>, tr)
  [] ev.op = "byextra" ->
       LET RECURSIVE Desc(_)
           Desc(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE
                      ELSE LET l == SetLcp(S)
                               S0 == {x \in S : BitAt(x, l + 1) = "0"}
                           IN  IF (Extra(m, S0) < Extra(m, S \ S0)) = ev.max THEN Desc(S \ S0) ELSE Desc(S0)
       IN  IF Keys(m) = {} THEN Want(s, ev, <<"ok", <<>>>>)
           ELSE LET k == Desc(Keys(m)) IN Want(s, ev, <<"ok", <<k, m[k]>>>>)
=============================================================================
