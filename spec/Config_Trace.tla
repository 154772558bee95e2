---------------------------- MODULE Config_Trace -----------------------------
EXTENDS Config, TraceRun

SInit(tr) == [addr |-> "", m |-> <<>>]
IfElse(p, msg) == IF p THEN "" ELSE msg
RootIs(T, m, root) == IfElse(root # 0 /\ root = Root1(T, m), "the root should be " \o ToString(Root1(T, m)))
SNew(T, s, ev) ==
  LET m == << <<Num32(0), IdOf(T, <<0, ev.addr, <<>>>>), TRUE>> >> IN
  <<[addr |-> ev.addr, m |-> m], IF ev.r[1] # "ok" THEN "no answer" ELSE RootIs(T, m, ev.r[2])>>
SSet(T, s, ev) ==
  LET m == With(s.m, ev.id, ev.cell, ~Typed(ev.id)) IN
  <<[s EXCEPT !.m = m], IF ev.r[1] # "ok" THEN "not set" ELSE IF ev.r[2] # TRUE THEN "set" ELSE RootIs(T, m, ev.r[3])>>
SRemove(T, s, ev) ==
  LET m == Removed(s.m, ev.id)
      was == IF ev.id = Num32(0) THEN 0 ELSE At(s.m, ev.id)[2]
  IN  <<[s EXCEPT !.m = m], IF ev.r[1] # "ok" THEN "not removed" ELSE IF ev.r[2] # was THEN "expected " \o ToString(was) ELSE RootIs(T, m, ev.r[3])>>
SGet(T, s, ev) ==
  LET a == Answer(T, s.m, ev.what, ev.mc, ev.id) IN
  <<s, IF a[1] = "err" THEN IfElse(ev.r[1] = "err", "there is none") ELSE IfElse(ev.r = a, "expected " \o ToString(a))>>
SPut(T, s, ev) ==
  LET n == Places(ev.what, ev.mc, ev.id)[1]
      w == Written(T, ev.what, n, ev.r[2])
  IN  IF ev.r[1] = "unfit" THEN <<s, IfElse(~w[1], "should be set")>>
      ELSE IF ~w[1] THEN <<s, "should not be set">>
      ELSE LET m == With(s.m, Num32(n), IdOf(T, w[2]), TRUE) IN
           <<[s EXCEPT !.m = m], IF ev.r[3] # TRUE THEN "set" ELSE RootIs(T, m, ev.r[4])>>
Listed(m) == [j \in 1..Len(m) |-> <<m[j][1], m[j][2]>>]
SJson(T, s, ev) ==
  LET j == ev.r[2]
      want == <<s.addr, Listed(s.m)>>
      told == \A n \in 1..Len(s.m) : s.m[n][3]
  IN  <<s, IF ev.r[3] # <<s.addr, Root1(T, s.m)>> THEN "the binary form"
           ELSE IF ~told THEN ""
           ELSE IF j[1] # "ok" THEN "the textual form is " \o j[1] \o ": " \o j[2]
           ELSE IF \E n \in 1..3 : j[2][n] # want THEN "the textual form: expected " \o ToString(want)
           ELSE "">>
SStep(tr, s, ev) ==
  LET T == tr.cells
      r == ev.r
  IN  IF r[1] \notin {"ok", "err", "none", "unfit"} THEN <<s, "no answer">>
      ELSE CASE ev.op = "new" -> SNew(T, s, ev)
             [] ev.op = "set" -> SSet(T, s, ev)
             [] ev.op = "remove" -> SRemove(T, s, ev)
             [] ev.op = "raw" -> <<s, IfElse(r = <<"ok", At(s.m, ev.id)[2]>>, "expected " \o ToString(At(s.m, ev.id)[2]))>>
             [] ev.op = "has" -> LET Any1(a, b) == Num32(a) \in Keys(s.m) \/ Num32(b) \in Keys(s.m) IN
                                 <<s, IfElse(r = <<"ok", Any1(32, 33), Any1(36, 37)>>, "validator sets")>>
             [] ev.op = "all" -> <<s, IfElse(r = <<"ok", Listed(s.m)>>, "expected " \o ToString(Listed(s.m)))>>
             [] ev.op = "get" -> SGet(T, s, ev)
             [] ev.op = "put" -> SPut(T, s, ev)
             [] ev.op = "save" -> <<s, IF r[1] # "ok" THEN "not saved" ELSE IF ~r[3] THEN "read as another"
                                       ELSE IfElse(T[r[2]] = <<0, s.addr, <<Root1(T, s.m)>>>>, "saved as another")>>
             [] ev.op = "json" -> SJson(T, s, ev)
=============================================================================
