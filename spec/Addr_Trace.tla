----------------------------- MODULE Addr_Trace -----------------------------
EXTENDS Addr, TraceRun

SInit(tr) == 0
Want(s, ev, exp) == IF ev.r = exp THEN <<s, "">> ELSE <<s, "expected " \o ToString(exp)>>
WantErr(s, ev) == IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected an error">>
Of(ev) == [t |-> ev.t, any |-> ev.any, wc |-> ev.wc, v |-> ev.v]
Fields(a) == <<a.t, a.any, a.wc, a.v>>

Ascii(c) == Chars(c) \subseteq Chars(Alphabet(FALSE) \o " !#$%&'()*,-.:;<=>?@[]^_`{|}~")

SStep(tr, s, ev) ==
  (* an address and its properties *)
  CASE ev.op = "make" ->
       LET a == Of(ev) IN
       IF ~Valid(a) THEN WantErr(s, ev)
       ELSE IF a.t = "ext" THEN Want(s, ev, <<"ok", AddrBits(a), Len(AddrBits(a)) - 2, ShowExt(a)>>)
       ELSE Want(s, ev, <<"ok", AddrBits(a), Len(AddrBits(a)), Prefix(a), IsMaster(a), IF a.t = "std" THEN ShowStd(a) ELSE "varaddr">>)
  (* an address with more or less data than it says *)
  [] ev.op = "odd" ->
       LET n == ev.n IN
       IF n > 511 THEN WantErr(s, ev)
       ELSE IF n > Len(ev.data) THEN (IF ev.r[1] = "panic" THEN <<s, "a panic">> ELSE <<s, "">>)
       ELSE LET a == IF ev.t = "ext" THEN Ext(Take(ev.data, n)) ELSE Var("-", ev.wc, Take(ev.data, n)) IN
            Want(s, ev, <<"ok", AddrBits(a)>>)
  [] ev.op = "load" ->
       LET r == LoadAddr(ev.v)
           ok == CASE ev.what = "int" -> r[1].t \in {"std", "var"} [] ev.what = "std" -> r[1].t = "std"
       IN  IF ok THEN Want(s, ev, <<"ok">> \o Fields(r[1]) \o <<r[2]>>) ELSE WantErr(s, ev)
  [] ev.op = "cmp" -> Want(s, ev, <<"ok", CmpAddr(ev.a, ev.b)>>)
  [] ev.op = "show" -> LET a == Std(ev.any, ev.wc, ev.v) IN
       Want(s, ev, <<"ok", Show64(a, ev.bounce, ev.test, FALSE), Show64(a, ev.bounce, ev.test, TRUE)>>)
  [] ev.op = "parse" ->
       CASE ev.what \in {"std", "int", "json", "jsonint"} ->
              LET a == ParseStd(ev.s) IN IF IsBad(a) THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok">> \o Fields(a))
         [] ev.what \in {"ext", "jsonext"} ->
              LET a == ParseExt(ev.s) IN IF IsBad(a) THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok">> \o Fields(a))
         [] ev.what = "any" ->
              LET p == ParseAny(ev.s, ev.f[1], ev.f[2], ev.f[3]) IN
              IF IsBad(p[1]) THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok">> \o Fields(p[1]) \o <<p[2], p[3], p[4]>>)
         [] ev.what = "json64" ->
              LET p == ParseAny(ev.s, TRUE, TRUE, TRUE) IN
              IF IsBad(p[1]) THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok">> \o Fields(p[1]))
         [] ev.what = "hash" ->
              LET h == ParseHash(ev.s)
                  \* what another prefix of two characters means is not said, but the rest is the hash
                  free == (Len(ev.s) = 66 /\ Take(ev.s, 2) # "0x") \/ (Len(ev.s) = 65 /\ ~Ascii(BitAt(ev.s, 1)))
              IN  IF free /\ ev.r[1] = "ok" THEN (IF ev.r = <<"ok", ParseHash(Drop(ev.s, Len(ev.s) - 64))>> THEN <<s, "">> ELSE <<s, "not the hash">>)
                  ELSE IF h = TextBad THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok", h>>)
         [] ev.what = "jsonhash" ->
              IF Len(ev.s) = 64 /\ ParseHash(ev.s) # TextBad THEN Want(s, ev, <<"ok", ParseHash(ev.s)>>) ELSE WantErr(s, ev)
         [] OTHER -> <<s, "unknown notation">>
  (* as the key of a dictionary *)
  [] ev.op = "key" -> IF ev.any # "-" THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok", AddrBits(Std("-", ev.wc, ev.v))>>)
  [] ev.op = "unkey" -> IF Take(ev.v, 3) = "100" THEN Want(s, ev, <<"ok", Take(Drop(ev.v, 3), 8), Drop(ev.v, 11)>>) ELSE Want(s, ev, <<"none">>)
  [] OTHER -> <<s, "unknown operation">>
=============================================================================
