----------------------------- MODULE Tlb_Trace -------------------------------
EXTENDS Tlb, TraceRun

SInit(tr) == <<>>

(* what was written is what the type says, and reads back *)
Enc1(T, ev) ==
  LET w == Write(T, ev.t, ev.r[2])
      c == ev.r[3]
  IN  IF w.i # Len(w.v) THEN "parts that are not of the type: " \o ToString(w)
      ELSE IF ~(w.fit /\ Small(w)) THEN (IF ev.r[1] = "err" THEN "" ELSE "should not fit")
      ELSE IF ev.r[1] # "ok" THEN "does fit"
      ELSE IF T[c] # <<0, w.b, w.r>> THEN "expected " \o ToString(<<0, w.b, w.r>>)
      ELSE LET e == Read(T, ev.t, c, TRUE) IN
           IF ~e.ok \/ e.v # ev.r[2] THEN "reads as " \o ToString(e) ELSE ""
(* what was read is what the type says, and can be written again *)
Dec1(T, ev) ==
  LET e == Read(T, ev.t, ev.cell, FALSE)
      r == ev.r
  IN  IF ~e.ok THEN (IF r[1] = "err" THEN "" ELSE "should not be read")
      ELSE IF r[1] # "ok" THEN "should be read as " \o ToString(e)
      ELSE IF r[2] # e.v \/ r[3] # Len(e.b) \/ r[4] # Len(e.r) THEN "expected " \o ToString(e)
      ELSE LET w == Write(T, ev.t, e.v)
               fit == w.fit /\ Small(w)
           IN  IF ~fit THEN (IF r[5] \in {0} THEN "" ELSE "cannot be written again, but was")
               ELSE IF r[5] = 0 THEN "cannot be written again"
               ELSE IF T[r[5]] # <<0, w.b, w.r>> THEN "written again: expected " \o ToString(<<0, w.b, w.r>>)
               ELSE ""
SStep(tr, s, ev) ==
  <<s, IF ev.r[1] \notin {"ok", "err"} THEN "no answer"
       ELSE IF ev.op = "enc" THEN Enc1(tr.cells, ev) ELSE Dec1(tr.cells, ev)>>
=============================================================================
