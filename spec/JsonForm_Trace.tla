--------------------------- MODULE JsonForm_Trace ----------------------------
EXTENDS JsonForm, TraceRun

SInit(tr) == <<>>
Range1(s) == {s[j] : j \in 1..Len(s)}

(* had: the value; told: whether it has a textual form; bin: whether it has a binary form *)
Backs(had, r, told, bin) ==
  IF r[1] = "err" THEN "should be read"
  ELSE IF r[2] # had THEN "expected " \o ToString(had)
  ELSE IF ~told THEN ""
  ELSE IF r[1] = "unwritten" THEN "has no textual form: " \o r[3]
  ELSE IF r[1] = "unread" THEN "its textual form is not read: " \o r[3]
  ELSE IF \E j \in 1..3 : r[3][j] # had THEN "its textual form is read as " \o ToString(CHOOSE b \in Range1(r[3]) : b # had) \o " instead of " \o ToString(had)
  ELSE IF bin /\ r[4] # <<"ok", had>> THEN "its binary form is read as " \o ToString(r[4]) \o " instead of " \o ToString(had)
  ELSE ""
Json1(T, ev) ==
  LET e == Read(T, ev.t, ev.cell, FALSE)
  IN  IF ~e.ok THEN (IF ev.r[1] = "err" THEN "" ELSE "should not be read")
      ELSE Backs(e.v, ev.r, Told(e.v) /\ ev.whole, ev.t \notin Tagged)
Message1(T, ev) ==
  LET e == ReadMsg(T, ev.t, ev.cell, TRUE)
  IN  IF ~e.ok THEN (IF ev.r[1] = "err" THEN "" ELSE "should not be read")
      ELSE Backs(<<e.v, e.body, e.lay>>, ev.r, Told(e.v) /\ ev.whole, TRUE)
Caps1(ev) ==
  LET r == ev.r
      all == InSet(ev.bits)
      known == Known(ev.bits)
      one == SelectSeq([j \in 1..64 |-> j - 1], LAMBDA j : Names[j] = ev.name)
      o == one[1]
  IN  IF one = <<>> \/ ev.name = "" THEN (IF r[1] = "err" THEN "" ELSE "no such name")
      ELSE IF r[1] # "ok" THEN "should be known"
      ELSE IF r[2] # [j \in 1..Len(known) |-> Names[known[j]]] THEN "expected " \o ToString(known)
      ELSE IF Len(r[3]) # Len(known) + 1 \/ \E j \in 1..Len(r[3]) : ~(r[3][j][1] <= Len(known) + 1 - j /\ r[3][j][2] >= Len(known) + 1 - j) THEN "says there are more or less to come"
      ELSE IF r[4] # Len(all) \/ r[5] # (all = <<>>) THEN "has another number of members"
      ELSE IF r[6] # Has(ev.bits, o) THEN "membership"
      ELSE IF r[7] # Mask(Range1(all) \cup {o}) THEN "with one more"
      ELSE IF r[8] # Mask(Range1(known)) THEN "collected"
      ELSE IF r[9] # ev.name \/ r[10] # Mask({o}) THEN "name"
      ELSE ""
SStep(tr, s, ev) ==
  <<s, IF ev.r[1] \notin {"ok", "err", "unread", "unwritten"} THEN "no answer"
       ELSE IF ev.op = "caps" THEN Caps1(ev) 
       ELSE IF ev.op = "message" THEN Message1(tr.cells, ev)
       ELSE IF ev.op = "proof" THEN Backs(<< <<ev.h[1]>>, <<ev.d[1]>>, <<ev.cells[1]>> >>, ev.r, TRUE, TRUE)
       ELSE IF ev.op = "update" THEN Backs(<<ev.h, ev.d, ev.cells>>, ev.r, TRUE, TRUE)
       ELSE Json1(tr.cells, ev)>>
=============================================================================
