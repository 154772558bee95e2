----------------------------- MODULE Msg_Trace -------------------------------
EXTENDS Msg, TraceRun

SInit(tr) == <<>>
Lays == <<"00", "01", "10", "11">>

(* r: <<"ok", parts, body, auto, sizes, cells, tight>>; whole: whether the body is kept as a cell *)
Shown(T, ty, r) ==
  LET h == Header(T, ty, r[2])
      s == State(T, h)
      body == r[3]
      has == HasState(h)
      hs == SizeOf(h)  is == SizeOf(s)  bs == BodySize(body)
      best == Best(hs, has, is, bs)
      whole(l) == Whole(hs, has, is, bs, l)
      Stored1(l, c) == \* what became of it in layout l
        LET fits == h.fit /\ s.fit /\ FitsAs(hs, has, is, bs, l) IN
        IF body[1] = 1 THEN (IF c = 0 \/ (BitAt(l, 2) = "1" /\ T[c] = Compose(T, h, s, body, l)) THEN "" ELSE "exotic body, layout " \o l)
        ELSE IF ~fits THEN (IF c = 0 THEN "" ELSE "should not fit in layout " \o l)
        ELSE IF c = 0 THEN "should fit in layout " \o l
        ELSE IF T[c] # Compose(T, h, s, body, l) THEN "layout " \o l \o ": expected " \o ToString(Compose(T, h, s, body, l))
        ELSE ""
      wrong == SelectSeq([j \in 1..5 |-> Stored1(IF j = 1 THEN best ELSE Lays[j - 1], r[6][j])], LAMBDA x : x # "")
  IN  IF s.i # Len(r[2]) THEN "parts that are not of the type: " \o ToString(s)
      ELSE IF r[4] # best THEN "the layout is " \o best
      ELSE IF r[5][1] # hs \/ (has /\ r[5][2] # is) \/ r[5][3] # bs THEN "the sizes are " \o ToString(<<hs, is, bs>>)
      ELSE IF (r[5][4] # whole(best) /\ FitsAs(hs, has, is, bs, best)) \/ \E j \in 1..4 : r[5][4 + j] # whole(Lays[j]) THEN "sizes of layouts: " \o ToString([j \in 1..4 |-> whole(Lays[j])])
      ELSE IF wrong # <<>> THEN wrong[1]
      ELSE IF r[7] # <<>> /\ h.fit /\ r[7][1] # TRUE THEN "the header does not fit where it should"
      ELSE IF Len(r[7]) = 2 /\ r[7][2] THEN "the header fits where it should not"
      ELSE ""
Dec1(T, ev) ==
  LET e == ReadMsg(T, ev.t, ev.cell, ev.own)
      r == ev.r
  IN  IF ~e.ok THEN (IF r[1] = "err" THEN "" ELSE "should not be read")
      ELSE IF r[1] # "ok" THEN "should be read as " \o ToString(e)
      ELSE IF r[4][1] # "ok" THEN "no answer"
      ELSE IF r[2] # e.lay \/ r[3] # e.left \/ r[4][2] # e.v \/ r[4][3] # e.body THEN "expected " \o ToString(e)
      ELSE Shown(T, ev.t, r[4])
SStep(tr, s, ev) ==
  <<s, IF ev.r[1] \notin {"ok", "err"} THEN "no answer"
       ELSE IF ev.op = "enc" THEN Shown(tr.cells, ev.t, ev.r) ELSE Dec1(tr.cells, ev)>>
=============================================================================
