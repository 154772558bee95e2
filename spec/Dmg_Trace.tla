------------------------------ MODULE Dmg_Trace ------------------------------
EXTENDS Damage, TraceRun

SInit(tr) == [r \in 0..3 |-> tr.cfg.roots[r + 1]]

Good(s) == <<s, "">>
Has(ev, f) == f \in DOMAIN ev
Failed(s, ev) == IF ev.r[3] = "same" THEN Good(s) ELSE <<s, "failed with an effect">>
IsErr(ev) == ev.r[1] = "err"
Say(s, ev, ok, exp) == IF ok THEN Good(s) ELSE <<s, "expected " \o ToString(exp)>>
Opt(m, k) == IF k \in Keys(m) THEN <<m[k]>> ELSE <<>>

(* what an iterator of a kind shows of an item *)
Show(it, kind) == CASE it.gap -> Err
                    [] ~it.gap /\ kind \in {"iter", "owned"} -> <<it.k, it.v>>
                    [] ~it.gap /\ kind = "keys" -> it.k
                    [] OTHER -> it.v

SStep(tr, s, ev) ==
  LET T == tr.cells
      n == tr.cfg.n
      aug == tr.cfg.aug = 1
      c == s[ev.d]
      I == Items(T, c, n, aug)
      P == IF aug THEN Items(T, c, n, FALSE) ELSE I
      E == Ents(I)
      G == Gaps(I)
      (* the keys that are there, if with an extra that cannot be read *)
      There == Keys(Ents(P))
      Torn == Gaps(P)
      c2 == IF Has(ev, "d2") THEN s[ev.d2] ELSE 0
      I2 == Items(T, c2, n, aug)
      E2 == Ents(I2)
      G2 == Gaps(I2)
      sound == Sound(T, c, n, aug) /\ Sound(T, c2, n, aug)
      broken == aug /\ ~(TopX(T, c, n) /\ TopX(T, c2, n))
      (* tree q holds the entries e and hides g *)
      Is(q, e, g) == LET J == Items(T, q, n, aug) IN Ents(J) = e /\ Gaps(J) = g
      (* the register d now holds a tree with the entries e and the gaps g *)
      Now(d, q, e, g) == IF Is(q, e, g) THEN <<[s EXCEPT ![d] = q], "">>
                         ELSE <<s, "expected the entries " \o ToString(e) \o " and nothing but " \o ToString(g) \o " hidden">>
  IN
  IF ev.op = "copy" THEN Good([s EXCEPT ![ev.t] = c])
  ELSE IF ev.r[1] = "panic" THEN <<s, "panicked">>
  ELSE IF ev.r[1] = "tool" THEN <<s, "the harness does not know this operation">>
  ELSE IF broken THEN IF IsErr(ev) THEN Failed(s, ev) ELSE <<s, "expected an error">>
  ELSE CASE ev.op \in {"get", "getown"} ->
         IF IsErr(ev) THEN Say(s, ev, Hidden(G, ev.k), Opt(E, ev.k)) ELSE Say(s, ev, ev.r[2] = Opt(E, ev.k), Opt(E, ev.k))
  [] ev.op = "contains" ->
       IF IsErr(ev) THEN Say(s, ev, Hidden(Gaps(P), ev.k), ev.k \in Keys(Ents(P)))
       ELSE Say(s, ev, ev.r[2] = (ev.k \in Keys(Ents(P))), ev.k \in Keys(Ents(P)))
  [] ev.op \in {"bound", "boundown"} ->
       LET J == Arrange(I, ev.max, ev.signed) IN
       IF I = <<>> THEN Say(s, ev, ev.r[2] = <<>>, <<>>)
       ELSE IF J[1].gap THEN Say(s, ev, IsErr(ev), Err)
       ELSE Say(s, ev, ev.r[1] = "ok" /\ ev.r[2] = <<J[1].k, J[1].v>>, J[1])
  [] ev.op = "find" ->
       LET J == Next1(I, ev.k, n, ev.max, ev.incl, ev.signed) IN
       IF IsErr(ev) THEN Say(s, ev, Hidden(G, ev.k) \/ (J # <<>> /\ J[1].gap), J)
       ELSE IF J = <<>> THEN Say(s, ev, ev.r[2] = <<>>, J)
       ELSE Say(s, ev, ev.r[2] = <<J[1].k, J[1].v>>, J)
  [] ev.op = "iter" ->
       LET J == Arrange(IF ev.kind = "keys" THEN P ELSE I, ev.rev, ev.signed)
           q == FirstGap(J)
           K == IF q = 0 THEN J ELSE Take(J, q)
       IN  Say(s, ev, ev.r = <<"ok", [j \in 1..Len(K) |-> Show(K[j], ev.kind)]>>, K)
  [] ev.op = "union" ->
       LET ks == InOrder(Keys(E) \cup Keys(E2), ev.rev, ev.signed)
           full == [j \in 1..Len(ks) |-> <<ks[j], Opt(E, ks[j]), Opt(E2, ks[j])>>]
           got == IF Ends(ev.r[2]) THEN Take(ev.r[2], Len(ev.r[2]) - 1) ELSE ev.r[2]
           (* nothing is shown from behind a gap *)
           Seen(J, k) == \E j \in 1..Len(J) : J[j].k = k /\ \A q \in 1..(j - 1) : ~J[q].gap
           Past(J, k) == \E j \in 1..Len(J) : J[j].gap /\ ~IsBeyond(J[j], k, n, ~ev.rev, FALSE, ev.signed)
       IN  IF ev.r[1] # "ok" THEN <<s, "fails again and again">>
           ELSE IF Whole(I) /\ Whole(I2) THEN Say(s, ev, ev.r[2] = full, full)
           ELSE IF ~Ends(ev.r[2]) THEN <<s, "not all can be read">>
           ELSE IF Len(got) > Len(full) THEN Say(s, ev, FALSE, full)
           ELSE Say(s, ev, got = Take(full, Len(got))
                           /\ \A j \in 1..Len(got) : ~Past(I, got[j][1]) /\ ~Past(I2, got[j][1]), full)
  [] ev.op \in {"ins", "insown"} ->
       IF IsErr(ev) THEN IF Hidden(G, ev.k) \/ (aug /\ ~sound) THEN Failed(s, ev) ELSE <<s, "should not fail">>
       ELSE IF Hidden(Torn, ev.k) THEN Say(s, ev, ~ev.r[2] /\ ev.m # "set" /\ Is(ev.r[IF ev.op = "ins" THEN 3 ELSE 4], E, G), Err)
       ELSE LET can == CASE ev.m = "set" -> TRUE [] ev.m = "replace" -> ev.k \in There [] OTHER -> ev.k \notin There
                at == IF ev.op = "ins" THEN 3 ELSE 4
                v == IF aug THEN <<ev.v[1], ev.v[2], ev.v[3]>> ELSE <<ev.v[1], ev.v[2]>>
            IN  IF ev.r[2] # can \/ (at = 4 /\ ev.r[3] # Opt(E, ev.k)) THEN Say(s, ev, FALSE, <<can, Opt(E, ev.k)>>)
                ELSE IF can THEN Now(ev.d, ev.r[at], Put(E, ev.k, v), G \ {ev.k}) ELSE Now(ev.d, ev.r[at], E, G)
  [] ev.op = "rem" ->
       IF IsErr(ev)
       THEN IF Hidden(G, ev.k) \/ (aug /\ ~sound) THEN Failed(s, ev)
            ELSE IF ev.k \notin Keys(E) \/ Len(I) = 1 THEN <<s, "should not fail">>
            ELSE LET b == Beside(I, ev.k)
                 IN  IF \E g \in G : StartsWith(b, g) THEN Failed(s, ev) ELSE <<s, "should not fail">>
       ELSE IF Hidden(G, ev.k) THEN Say(s, ev, ev.r[2] = <<>> /\ Is(ev.r[3], E, G), Err)
       ELSE IF ev.r[2] # Opt(E, ev.k) THEN Say(s, ev, FALSE, Opt(E, ev.k))
       ELSE Now(ev.d, ev.r[3], Del(E, ev.k), G)
  [] ev.op = "remsub" ->
       LET S == {k \in Keys(E) : StartsWith(ev.k, k)}
           H == {g \in G : StartsWith(ev.k, g)}
       IN  IF IsErr(ev) THEN IF sound THEN <<s, "should not fail">> ELSE Failed(s, ev)
           ELSE IF Hidden(G \ H, ev.k) THEN Say(s, ev, ~ev.r[2] /\ Is(ev.r[3], E, G), Err)
           ELSE IF ev.r[2] # (S # {} \/ H # {}) THEN Say(s, ev, FALSE, S)
           ELSE Now(ev.d, ev.r[3], MRestrict(E, Keys(E) \ S), G \ H)
  [] ev.op = "rembound" ->
       LET J == Arrange(I, ev.max, ev.signed) IN
       IF I = <<>> THEN Say(s, ev, ev.r[1] = "ok" /\ ev.r[2] = <<>>, <<>>)
       ELSE IF J[1].gap THEN IF IsErr(ev) THEN Failed(s, ev) ELSE <<s, "expected an error">>
       ELSE IF IsErr(ev) THEN
            IF Len(I) > 1 /\ (\E g \in G : StartsWith(Beside(I, J[1].k), g)) THEN Failed(s, ev) ELSE <<s, "should not fail">>
       ELSE IF ev.r[2] # <<J[1].k, J[1].v>> THEN Say(s, ev, FALSE, J[1])
       ELSE Now(ev.d, ev.r[3], Del(E, J[1].k), G)
  [] ev.op = "modify" ->
       LET new == Modify(E, ev.items, 1) IN
       IF IsErr(ev) THEN IF sound THEN <<s, "should not fail">> ELSE Failed(s, ev)
       ELSE Now(ev.d, ev.r[3], new, G \ {k \in There : \E q \in 1..Len(ev.items) : ev.items[q][1] = k})
  [] ev.op = "split" ->
       LET ok == Keys(E) # {} \/ G # {} => Len(ev.k) < n /\ \A q \in 1..Len(I) : StartsWith(ev.k, I[q].k)
           Half(S, b) == {k \in S : StartsWith(ev.k \o b, k)}
       IN  IF IsErr(ev) THEN IF ok /\ sound THEN <<s, "should not fail">> ELSE Failed(s, ev)
           ELSE IF ok /\ Is(ev.r[2], MRestrict(E, Half(Keys(E), "0")), Half(G, "0"))
                      /\ Is(ev.r[3], MRestrict(E, Half(Keys(E), "1")), Half(G, "1"))
           THEN <<[[s EXCEPT ![ev.t] = ev.r[2]] EXCEPT ![ev.t2] = ev.r[3]], "">>
           ELSE <<s, "not the entries on both sides">>
  [] ev.op = "mergesib" ->
       IF IsErr(ev) THEN IF sound /\ Siblings(E, E2) THEN <<s, "should not fail">> ELSE Failed(s, ev)
       ELSE Now(ev.t, ev.r[2], Union(E, E2), G \cup G2)
  [] ev.op = "merge" ->
       IF IsErr(ev) THEN IF sound THEN <<s, "should not fail">> ELSE Failed(s, ev)
       ELSE Now(ev.d, ev.r[2], Union(E, E2), G \cup G2)
  (* nothing but an entry, whatever the extras lead to *)
  [] ev.op = "byextra" ->
       IF IsErr(ev) THEN IF sound THEN <<s, "should not fail">> ELSE Good(s)
       ELSE IF ev.r[2] = <<>> THEN Say(s, ev, c = 0, E)
       ELSE Say(s, ev, ev.r[2][1] \in Keys(E) /\ E[ev.r[2][1]] = ev.r[2][2], E)
  (* the root inlined in a larger cell *)
  [] ev.op = "loadroot" ->
       IF c = 0 THEN Good(s)
       ELSE LET row == <<0, T[c][2] \o ev.v[1], T[c][3] \o ev.v[2]>>
                J == Items(Append(T, row), Len(T) + 1, n, aug)
            IN  IF IsErr(ev) THEN Say(s, ev, \/ Len(row[2]) > 1023 \/ Len(row[3]) > 4
                                             \/ (Len(J) = 1 /\ J[1].gap) \/ (aug /\ ~sound), J)
                ELSE Say(s, ev, Is(ev.r[2], Ents(J), Gaps(J)), J)
=============================================================================
