---------------------------- MODULE Merkle_Trace -----------------------------
EXTENDS Merkle, TraceRun

(* tab: cells made so far, as the harness numbers them; ups: updates *)
SInit(tr) == [tab |-> <<>>, ups |-> <<>>]

Put(s, ev, c) ==
  IF Bad(c) THEN (IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected an error">>)
  ELSE IF ev.r = <<"ok", c.h[3]>> THEN <<[s EXCEPT !.tab = Append(s.tab, c)], "">>
  ELSE <<s, "another cell">>
SetOf(q) == {q[j] : j \in 1..Len(q)}
TheFilter(s, ev) == Filter(Hashes(s.tab, SetOf(ev.inc)), Hashes(s.tab, SetOf(ev.sub)), FALSE)
Show(c) == <<c.h[3], c.h[0], c.d[0], c.m>>

(* a proof: the fields, the cell, and which cells it lacks *)
Proof(s, ev, f, big, any) ==
  LET root == s.tab[ev.c]
      p == ProofOf(s.tab, ev.c, f, big)
  IN  IF (~any /\ Act(f, root.h[3]) = "skip") \/ Bad(p) THEN (IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected an error">>)
      ELSE IF ev.r[1] # "ok" THEN <<s, "expected a proof">>
      ELSE LET exp == <<root.h[3], root.d[3], Show(p)>> IN
           IF SubSeq(ev.r, 2, 4) # exp THEN <<s, "expected " \o ToString(exp)>>
           ELSE IF SetOf(ev.r[5]) # Hashes(s.tab, CutSet(s.tab, ev.c, f, big)) THEN <<s, "the list of pruned cells">>
           ELSE IF Cardinality(SetOf(ev.r[5])) # Len(ev.r[5]) THEN <<s, "a pruned cell is listed twice">>
           ELSE IF root.m = 0 /\ Show(p) # <<p.h[3], root.h[3], root.d[3], p.m>> THEN <<s, "the specification is wrong: not a proof">>
           ELSE LET q == [p EXCEPT !.k = <<>>]
                    as == Make(1, "00000011" \o Unhex(root.h[3]) \o Nat2Bits(root.d[3], 16), <<0>>, <<p>>)
                    \* it is found valid exactly when it is
                    ok == p.h[0] = root.h[3] /\ p.d[0] = root.d[3]
                IN  IF Bad(as) THEN (IF ev.r[6][1] = "err" THEN <<s, "">> ELSE <<s, "stored, expected an error">>)
                    ELSE IF ev.r[6] = <<"ok", as.h[3], ok>> THEN <<s, "">> ELSE <<s, "stored, expected " \o ToString(<<as.h[3], ok>>)>>

Update(s, ev) ==
  LET f == TheFilter(s, ev)
      u == UpdateOf(s.tab, ev.c, ev.c2, f)
      a == s.tab[ev.c]
      b == s.tab[ev.c2]
      rec == [oh |-> a.h[3], nh |-> b.h[3], od |-> a.d[3], nd |-> b.d[3], old |-> u.old, new |-> u.new, tree |-> u.tree,
              a |-> ev.c, b |-> ev.c2, good |-> u.closed /\ a.m = 0 /\ b.m = 0]
      as == Make(1, "00000100" \o Unhex(rec.oh) \o Unhex(rec.nh) \o Nat2Bits(rec.od, 16) \o Nat2Bits(rec.nd, 16), <<0, 0>>, <<u.old, u.new>>)
      ok == u.old.h[0] = rec.oh /\ u.old.d[0] = rec.od /\ u.new.h[0] = rec.nh /\ u.new.d[0] = rec.nd
      exp == <<"ok", rec.oh, rec.nh, rec.od, rec.nd, Show(u.old), Show(u.new), IF Bad(as) THEN <<"err", ev.r[8][2]>> ELSE <<"ok", as.h[3], ok>>>>
  IN  IF Bad(u.old) \/ Bad(u.new) THEN (IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected an error">>)
      ELSE IF ev.r[1] # "ok" THEN <<s, "expected an update">>
      ELSE IF ev.r # exp THEN <<s, "expected " \o ToString(exp)>>
      ELSE <<[s EXCEPT !.ups = Append(@, rec)], "">>

(* Field by field, an update with parts of another. *)
Tamper(s, ev) ==
  LET u == s.ups[ev.u]
      v == s.ups[ev.v]
      g(n, x, y) == IF n \in SetOf(ev.what) THEN y ELSE x
      w == [oh |-> g(1, u.oh, v.oh), nh |-> g(2, u.nh, v.nh), od |-> g(3, u.od, v.od), nd |-> g(4, u.nd, v.nd),
            old |-> g(5, u.old, v.old), new |-> g(6, u.new, v.new), tree |-> {}, a |-> 0, b |-> 0, good |-> FALSE]
      as == Make(1, "00000100" \o Unhex(w.oh) \o Unhex(w.nh) \o Nat2Bits(w.od, 16) \o Nat2Bits(w.nd, 16), <<0, 0>>, <<w.old, w.new>>)
      ok == w.old.h[0] = w.oh /\ w.old.d[0] = w.od /\ w.new.h[0] = w.nh /\ w.new.d[0] = w.nd
  IN  IF Bad(as) THEN <<[s EXCEPT !.ups = Append(@, w)], IF ev.r[1] = "err" THEN "" ELSE "expected an error">>
      ELSE IF ev.r = <<"ok", as.h[3], ok>> THEN <<[s EXCEPT !.ups = Append(@, w)], "">> ELSE <<s, "expected " \o ToString(<<as.h[3], ok>>)>>

Err(s, ev) == IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected an error">>
Apply(s, ev) ==
  LET u == s.ups[ev.u]
      c == s.tab[ev.c]
  IN  IF c.h[3] # u.oh THEN Err(s, ev)
      ELSE IF u.good THEN (IF ev.r = <<"ok", u.nh>> THEN <<s, "">> ELSE <<s, "the update does not give the new tree">>)
      \* an update that is not one may be refused, or still name its result
      ELSE IF ev.r[1] = "err" \/ ev.r = <<"ok", u.nh>> THEN <<s, "">> ELSE <<s, "another tree than announced">>
Removed(s, ev) ==
  LET u == s.ups[ev.u]
      c == s.tab[ev.c]
  IN  IF c.h[3] # u.oh \/ u.old.h[0] # u.oh THEN Err(s, ev)
      ELSE IF ~u.good THEN <<s, "">>
      ELSE IF ev.r[1] # "ok" THEN <<s, "expected a list">>
      ELSE LET exp == IF u.oh = u.nh THEN {} ELSE Going(s.tab, u.a, u.b)
               got == SetOf(ev.r[2])
           IN
           IF Len(ev.r[2]) # Cardinality(got) THEN <<s, "a removed cell is listed twice">>
           ELSE IF got = exp THEN <<s, "">>
           ELSE IF got = Named(s.tab, u.a, u.tree) THEN <<s, "references of cells that stay are listed as removed">>
           ELSE <<s, "expected " \o ToString(exp)>>

(* reading a cell as a proof or an update *)
Parsed(s, ev) ==
  LET c == s.tab[ev.c]
      t == TypeOf(c.x, c.b)
      h(j) == Hex(SubSeq(c.b, 9 + 256 * j, 264 + 256 * j))
      d(k, j) == Bits2Nat(SubSeq(c.b, 9 + 256 * k + 16 * j, 24 + 256 * k + 16 * j))
      kid(j) == s.tab[c.k[j]]
      fits(n) == \A j \in 0..(n - 1) : kid(j + 1).h[0] = h(j) /\ kid(j + 1).d[0] = d(n, j)
      asP == IF t = "proof" /\ fits(1) THEN <<"ok", h(0), d(1, 0), kid(1).h[3]>> ELSE <<"err">>
      asU == IF t = "update" /\ fits(2) THEN <<"ok", h(0), h(1), d(2, 0), d(2, 1), kid(1).h[3], kid(2).h[3]>> ELSE <<"err">>
  IN  IF ev.r = <<"ok", asP, asP, asU>> THEN <<s, "">> ELSE <<s, "expected " \o ToString(<<asP, asU>>)>>

SStep(tr, s, ev) ==
  LET tab == s.tab IN
  IF ev.r[1] = "panic" THEN <<s, "panicked">>
  ELSE IF ev.r[1] = "tool" THEN <<s, "the harness does not know this operation">>
  ELSE IF ev.r[1] = "differs" THEN <<s, "the ways to do it do not agree">>
  ELSE CASE
     ev.op = "cell" -> Put(s, ev, MakeIn(tab, ev.x, ev.v, ev.refs))
  [] ev.op = "prune" -> Put(s, ev, Prune(tab[ev.c], ev.n))
  [] ev.op = "proof" -> Put(s, ev, MakeIn(tab, 1, ProofBits(tab[ev.c]), <<ev.c>>))
  [] ev.op = "update" -> Put(s, ev, MakeIn(tab, 1, UpdateBits(tab[ev.c], tab[ev.c2]), <<ev.c, ev.c2>>))
  [] ev.op = "library" -> Put(s, ev, MakeIn(tab, 1, "00000010" \o Unhex(ev.h), <<>>))
  [] ev.op = "prove" -> Proof(s, ev, TheFilter(s, ev), ev.big, ev.any)
  [] ev.op = "provecell" -> Proof(s, ev, CellFilter(tab, ev.c, IF ev.c2 = 0 THEN Rep("4d", 32) ELSE tab[ev.c2].h[3]), ev.big, FALSE)
  [] ev.op = "diff" -> Update(s, ev)
  [] ev.op = "tamper" -> Tamper(s, ev)
  [] ev.op = "apply" -> Apply(s, ev)
  [] ev.op = "removed" -> Removed(s, ev)
  [] ev.op = "parse" -> Parsed(s, ev)
  [] ev.op = "deep" ->
       \* a chain, a proof of its end and an update that changes its end
       IF ev.r = <<"ok", TRUE, TRUE>> THEN <<s, "">> ELSE <<s, "a deep tree is not handled">>
=============================================================================
