----------------------------- MODULE Cells_Trace -----------------------------
EXTENDS Cells, TraceRun

(* tab: all cells made so far; the harness numbers them the same way *)
SInit(tr) == [tab |-> <<>>]

TypeByte(x, b) == IF x = 0 THEN 255 ELSE Bits2Nat(Take(b, 8))
Fn(f) == <<f[0], f[1], f[2], f[3]>>
MaxDepth(c, ls) == \E l \in ls : c.d[l] = 65535
View(tab, c) ==
  <<TypeByte(c.x, c.b), c.m, Ones(c.m), Fn(c.h), Fn(c.d), Len(c.b), DataHex(c.b), [j \in 1..Len(c.k) |-> tab[c.k[j]].h[3]],
    MaxDepth(c, {l \in 0..3 : Sig(c.m, l)}), c.h[3] = Sha256("0000"), c.x = 0>>
(* What a cell shows, virtualized `t` (0 or 1) times: its levels, and its references virtualized in turn. *)
(* A cell without levels is complete, nothing below it is virtualized.                                 *)
VView(tab, c, t) ==
  LET v == Virtual(c, t) IN
  <<v.h[3], v.d[3], c.b, [j \in 1..Len(c.k) |-> Virtual(tab[c.k[j]], IF c.m = 0 THEN 0 ELSE t).h[3]], v.h[0], v.d[0],
    IF Contiguous(c.m) THEN Fn(v.h) ELSE <<>>, IF Contiguous(c.m) THEN Fn(v.d) ELSE <<>> >>
Stats(c) == IF c.n >= Cap \/ c.s >= Cap THEN <<>> ELSE <<c.n, c.s>>

Put(s, ev, c) ==
  IF Bad(c) THEN (IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected an error">>)
  ELSE LET t2 == Append(s.tab, c)
           exp == <<"ok", View(t2, c), VView(t2, c, 1), VView(t2, c, 1), Stats(c)>>
       IN  IF ev.r = exp THEN <<[s EXCEPT !.tab = t2], "">> ELSE <<s, "expected " \o ToString(exp)>>

RECURSIVE Walk(_, _, _, _)
Walk(tab, k, t, path) ==
  IF path = <<>> THEN <<k, t>>
  ELSE IF Head(path) > Len(tab[k].k) THEN <<0, 0>>
  ELSE Walk(tab, tab[k].k[Head(path)], IF tab[k].m = 0 THEN 0 ELSE t, Tail(path))
Want(s, ev, exp) == IF ev.r = exp THEN <<s, "">> ELSE <<s, "expected " \o ToString(exp)>>

SStep(tr, s, ev) ==
  LET tab == s.tab IN
  IF ev.r[1] = "panic" THEN <<s, "panicked">>
  ELSE IF ev.r[1] = "tool" THEN <<s, "the harness does not know this operation">>
  ELSE CASE
     ev.op = "cell" -> Put(s, ev, MakeIn(tab, ev.x, ev.v, ev.refs))
  [] ev.op = "prune" -> Put(s, ev, Prune(tab[ev.c], ev.n))
  [] ev.op = "proof" -> Put(s, ev, MakeIn(tab, 1, ProofBits(tab[ev.c]), <<ev.c>>))
  [] ev.op = "update" -> Put(s, ev, MakeIn(tab, 1, UpdateBits(tab[ev.c], tab[ev.c2]), <<ev.c, ev.c2>>))
  [] ev.op = "library" -> Put(s, ev, MakeIn(tab, 1, "00000010" \o Unhex(ev.h), <<>>))
  [] ev.op = "eq" -> Want(s, ev, <<"ok", tab[ev.c].h[3] = tab[ev.c2].h[3]>>)
  [] ev.op = "walk" ->
       (* down references of a virtualized cell, by reference or by value *)
       LET k == Walk(tab, ev.c, 1, ev.path) IN Want(s, ev, IF k[1] = 0 THEN <<"none">> ELSE <<"ok", VView(tab, tab[k[1]], k[2])>>)
  [] ev.op = "twice" ->
       (* the root virtualized several times, by reference *)
       IF ~Contiguous(tab[ev.c].m) THEN <<s, "">>
       ELSE LET v == Virtual(tab[ev.c], ev.n) IN Want(s, ev, <<"ok", Fn(v.h), Fn(v.d)>>)
  [] ev.op = "static" ->
       (* the predefined cells *)
       LET c == Make(0, ev.v, <<>>, <<>>) IN Want(s, ev, <<"ok", c.h[3], DataHex(ev.v)>>)
  [] ev.op = "slice" ->
       (* ordinary data is not read from an exotic cell by accident *)
       LET c == tab[ev.c] IN
       IF c.x = 1 THEN (IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected an error">>) ELSE Want(s, ev, <<"ok", c.b>>)
=============================================================================
