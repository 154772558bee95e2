----------------------------- MODULE Vset_Trace ------------------------------
EXTENDS Actions, Subset, TraceRun

SInit(tr) == <<>>
Shown(x, seqno, r) ==
  IF ~x.ok THEN (IF r = <<"none">> THEN "" ELSE "there is no subset")
  ELSE IF r[1] # "ok" THEN "expected " \o ToString(x.list)
  ELSE IF r[2] # x.list THEN "expected " \o ToString(x.list)
  ELSE IF r[3] # HashOf(x.list, seqno) THEN "the hash is " \o HashOf(x.list, seqno)
  ELSE ""
Numbers(ev) ==
  LET n == Len(ev.ranges)
      rs == Random(Unhex(ev.from), ev.shard, ev.seqno, n)
  IN  [j \in 1..n |-> IF ev.ranges[j] = "" THEN rs[j] ELSE Below(rs[j], ev.ranges[j])]
Acts(T, ev) ==
  LET e == ReadActions(T, ev.cell) IN
  IF T[ev.cell][1] = 1 THEN (IF ev.r[1] = "err" THEN "" ELSE "read an exotic cell")
  ELSE IF ev.r[1] # "ok" THEN "not read"
  ELSE IF ev.r[2] # e.acts \/ ev.r[3] # (IF e.ok THEN "end" ELSE "bad") THEN "expected " \o ToString(e)
  ELSE ""
(* what was emitted last comes first *)
Emitted(T, ev) ==
  IF ev.r[1] = "err" THEN ""
  ELSE LET e == ReadActions(T, ev.r[3]) IN
       IF e.ok /\ e.acts = Reverse(ev.r[2]) THEN "" ELSE "expected " \o ToString(e)
SStep(tr, s, ev) ==
  <<s, IF ev.r[1] \notin {"ok", "err", "none"} THEN "no answer"
       ELSE CASE ev.op = "subset" -> Shown(ShardSubset(ev.list, ev.main, ev, ev.shard, ev.seqno), ev.seqno, ev.r)
              [] ev.op = "mcsubset" -> Shown(MasterSubset(ev.list, ev.main, ev.shuffle, ev.seqno), ev.seqno, ev.r)
              [] ev.op = "prng" -> IF ev.r = <<"ok", Numbers(ev)>> THEN "" ELSE "expected " \o ToString(Numbers(ev))
              [] ev.op = "emit" -> Emitted(tr.cells, ev)
              [] OTHER -> Acts(tr.cells, ev)>>
=============================================================================
