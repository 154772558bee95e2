---------------------------- MODULE Money_Trace ------------------------------
EXTENDS Money, TraceRun

SInit(tr) == <<>>
Good(s) == <<s, "">>
WantErr(s, ev) == IF ev.r[1] = "err" THEN Good(s) ELSE <<s, "expected an error">>
Want(s, ev, exp) == IF ev.r = exp THEN Good(s) ELSE <<s, "expected " \o ToString(exp)>>
(* the operation makes a collection, or fails when c is Fail *)
Makes(tr, s, ev, c) ==
  IF Failed(c) THEN WantErr(s, ev)
  ELSE IF ev.r[1] # "ok" THEN <<s, "expected " \o ToString(c)>>
  ELSE IF Is(ev.r[2], c, tr.cells) THEN <<Append(s, c), "">> ELSE <<s, "expected " \o ToString(c)>>

Both(tr, s, ev) == \* sums of values that contain collections
  LET sum(k) == Arith("add", s[ev.l[k]], s[ev.r2[k]])
      part(k, x) == Is(x, sum(k), tr.cells)
      plain == Checked("v120", Exact("add", ev.x[1], ev.x[2]))
  IN CASE ev.kind = "created" ->
            IF Failed(sum(1)) \/ Failed(sum(2)) THEN WantErr(s, ev)
            ELSE IF ev.r[1] = "ok" /\ part(1, ev.r[2]) /\ part(2, ev.r[3]) THEN Good(s) ELSE <<s, "another sum">>
     [] ev.kind = "import" ->
            IF Failed(sum(1)) \/ plain = None THEN WantErr(s, ev)
            ELSE IF ev.r[1] = "ok" /\ part(1, ev.r[2]) /\ ev.r[3] = plain THEN Good(s) ELSE <<s, "another sum">>
     [] ev.kind = "depth" ->
            IF Failed(sum(1)) THEN WantErr(s, ev)
            ELSE IF ev.r[1] = "ok" /\ part(1, ev.r[2]) /\ ev.r[3] = (IF BCmp(ev.x[1], ev.x[2]) < 0 THEN ev.x[2] ELSE ev.x[1]) THEN Good(s) ELSE <<s, "another sum">>

SStep(tr, s, ev) ==
  IF ev.r[1] = "panic" THEN <<s, "panicked">>
  ELSE IF ev.r[1] = "tool" THEN <<s, "the harness does not know this operation">>
  ELSE IF ev.r[1] = "differs" THEN <<s, "forms of the operation differ">>
  ELSE CASE
     ev.op = "make" -> Makes(tr, s, ev, IF PairsOk(ev.pairs) THEN FromPairs(ev.tok, ev.pairs) ELSE Fail)
  [] ev.op = "do" -> Makes(tr, s, ev, Do(ev.o, s[ev.a], s[ev.b]))
  [] ev.op = "tokens" -> Makes(tr, s, ev, LET v == Checked("v120", Exact(ev.o, s[ev.a].tok, ev.n)) IN IF v = None THEN Fail ELSE Coins(v, s[ev.a].m))
  [] ev.op = "norm" -> Makes(tr, s, ev, Norm(s[ev.a]))
  [] ev.op = "same" -> Want(s, ev, <<"ok", s[ev.a] = s[ev.b]>>)
  [] ev.op = "sum" -> Both(tr, s, ev)
  [] ev.op = "look" ->
       LET c == s[ev.a] IN
       IF ~Fine(c) THEN WantErr(s, ev)
       ELSE Want(s, ev, <<"ok", IsZero(c.tok) /\ DOMAIN c.m = {}, Len(HeadBits(c)), Refs(c), HeadBits(c), Listed(c.m)>>)
  [] ev.op = "load" -> \* after an encoding there may be more; a wrong end is noticed
       LET c == s[ev.a] IN
       IF ~Fine(c) THEN WantErr(s, ev)
       ELSE IF ev.cut > 0 THEN WantErr(s, ev)
       ELSE IF ev.r[1] = "ok" /\ Is(ev.r[2], c, tr.cells) /\ ev.r[3] = <<ev.more, 1>> THEN Good(s) ELSE <<s, "expected " \o ToString(c)>>
=============================================================================
