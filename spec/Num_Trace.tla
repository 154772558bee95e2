----------------------------- MODULE Num_Trace -------------------------------
EXTENDS Num, TraceRun

SInit(tr) == 0
Want(s, ev, exp) == IF ev.r = exp THEN <<s, "">> ELSE <<s, "expected " \o ToString(exp)>>
WantErr(s, ev) == IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected an error">>

Ops == <<"add", "sub", "mul", "div", "rem">>
(* comparison; checked and saturating results; plain operators, for which only results that fit are defined *)
Calc(s, ev) ==
  LET t == ev.t
      e == [j \in 1..5 |-> Exact(Ops[j], ev.a, ev.b)]
      r == ev.r
      \* products of 249 to 256 bits: the test suite pins that they are returned
      \* (and that they are not when the first factor is out of range itself)
      loose == t = "v248" /\ Len(e[3]) <= 256 /\ (Len(e[3]) >= 249 \/ ~InRange(t, ev.a))
      free(j, x) == x = "absent" \/ (j = 3 /\ loose /\ x \in {"none", Kept(t, e[3]), Kept(t, MostOf(t))})
      plain(j) == r[5][j] = "absent" \/ ~IsNumber(e[j]) \/ Len(e[j]) > Types[t].in \/ r[5][j] = Kept(t, e[j])
      sure(j) == IsNumber(e[j]) \/ r[5][j] \in {"panic", "absent"} \/ e[j] = "-"
  IN  IF r[1] # "ok" THEN <<s, "expected numbers">>
      ELSE IF r[2] # BCmp(ev.a, ev.b) THEN <<s, "wrong order">>
      ELSE IF \E j \in 1..Len(r[3]) : ~free(j, r[3][j]) /\ r[3][j] # Checked(t, e[j]) THEN <<s, "checked: expected " \o ToString([j \in 1..4 |-> Checked(t, e[j])])>>
      ELSE IF \E j \in 1..Len(r[4]) : ~free(j, r[4][j]) /\ r[4][j] # Saturated(t, e[j]) THEN <<s, "saturating: expected " \o ToString([j \in 1..3 |-> Saturated(t, e[j])])>>
      ELSE IF \E j \in 1..Len(r[5]) : ~(plain(j) /\ sure(j)) THEN <<s, "operators: expected " \o ToString(e)>>
      ELSE IF r[6] # <<InRange(t, ev.a), StripZ(ev.a) = "">> THEN <<s, "range and zero">>
      ELSE <<s, "">>

SStep(tr, s, ev) ==
  LET T == Types[ev.t]
      t == ev.t
  IN
  IF ev.r[1] = "panic" THEN <<s, "panicked">>
  ELSE IF ev.r[1] = "tool" THEN <<s, "the harness does not know this operation">>
  ELSE CASE
     ev.op = "calc" -> Calc(s, ev)
  [] ev.op = "consts" -> Want(s, ev, <<"ok", Kept(t, T.low), Kept(t, MostOf(t)), T.len + T.bits>>)
  [] ev.op = "store" ->
       LET b == Stored(t, ev.v)
           size == IF InRange(t, ev.v) THEN Len(b) ELSE IF T.var THEN 0 ELSE T.bits
       IN IF ev.r[1] = "differs" THEN Want(s, ev, "the same")
          ELSE IF ev.r[2] # size THEN <<s, "expected the size " \o ToString(size)>>
          ELSE IF InRange(t, ev.v) /\ Len(b) + ev.pre <= 1023
               THEN Want(s, ev, <<"ok", size, b>>)
               ELSE IF ev.r[1] = "full" THEN <<s, "">> ELSE <<s, "expected an error">>
  [] ev.op = "load" -> LET x == Loaded(t, ev.v) IN IF x = <<>> THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok", x[1], Len(ev.v) - x[2]>>)
  [] ev.op = "text" -> LET v == FromText(t, ev.s) IN IF v = "none" THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok", v>>)
  [] ev.op = "json" -> \* as JSON text or number; the quotes are part of what is given
       LET v == IF ev.q THEN FromText(t, ev.s) ELSE IF ev.s # "" /\ IsDec(ev.s) /\ (BitAt(ev.s, 1) # "0" \/ Len(ev.s) = 1) THEN FromText(t, ev.s) ELSE "none"
           right == ev.q = (t \in {"v120", "v248"})
       IN  IF v = "none" \/ ~right THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok", v>>)
  [] ev.op = "radix" -> LET v == ParseRadix(ev.s, ev.n, 248) IN IF v = NotNumber THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok", Kept(t, v)>>)
  [] ev.op = "show" ->
       LET d == BDec(ev.v)
           j == IF t \in {"v120", "v248"} THEN "\"" \o d \o "\"" ELSE d
       IN  Want(s, ev, <<"ok", d, j, IF t = "v248" THEN <<>> ELSE <<ShowBin(ev.v), ShowHex(ev.v), Upper(ShowHex(ev.v))>>, InRange(t, ev.v)>>)
  [] ev.op = "shift" -> Want(s, ev, <<"ok", ShiftR(ev.v, ev.n), ShiftL(ev.v, ev.n)>>)
  [] ev.op = "new" -> \* a split depth of a number
       IF InRange(t, ev.v) THEN Want(s, ev, <<"ok", Kept(t, StripZ(ev.v))>>) ELSE WantErr(s, ev)
=============================================================================
