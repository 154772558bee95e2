------------------------------ MODULE Abi_Trace ------------------------------
EXTENDS Abi, TraceRun

SInit(tr) == <<>>
Is(r, x) == IF r = x THEN "" ELSE "expected " \o ToString(x)
(* a cell was built: x is <<table, cell>> *)
Cell(T, r, x) ==
  IF r[1] = "err" THEN (IF x[2] = 0 THEN "" ELSE "not encoded")
  ELSE IF r[2] = x[2] THEN ""
  ELSE "expected cell " \o ToString(x[2]) \o " of " \o ToString(SubSeq(x[1], Len(T) + 1, Len(x[1])))
(* a value was read: d is <<value, bits, references>> or <<>> *)
Read(r, t, d) ==
  IF d = <<>> THEN (IF r[1] = "err" THEN "" ELSE "read what is not a value")
  ELSE IF r[1] = "err" THEN "not read: " \o ToString(d)
  ELSE IF r[3] = d[2] /\ r[4] = d[3] /\ Same(t, d[1], r[2]) THEN "" ELSE "expected " \o ToString(d)
InId(ev) == IF ev.id # "" THEN ev.id ELSE InputId(Signature(ev.ver, ev.name, ev.headers, ev.ins, ev.outs))
OutId(ev) == IF ev.id # "" THEN ev.id ELSE OutputId(Signature(ev.ver, ev.name, ev.headers, ev.ins, ev.outs))
EventId(ev) == IF ev.id # "" THEN ev.id ELSE InputId(EventSignature(ev.ver, ev.name, ev.ins))
Names(ev) ==
  LET fid == InId(ev)
      o == OutId(ev)
  IN  <<"ok", Signature(ev.ver, ev.name, ev.headers, ev.ins, ev.outs), fid, o,
        EventSignature(ev.ver, ev.name, ev.ins), EventId(ev), <<TRUE, TRUE, fid = o, fid = o, TRUE, FALSE>>>>
Made(T, ev) ==
  LET put(x) == Whole1(x)[2]
      fid == InId(ev)
      a == [time |-> ev.time, pubkey |-> ev.pubkey,
            expire |-> IF ev.expire # "" THEN ev.expire
                       ELSE Widen(StripZ(BAdd(BDiv(ev.time, Nat2Bits(1000, 10), 64), Nat2Bits(60, 6), 64)), 32)]
      x == Payload1(T, fid, ev.ins, ev.vals, ev.ver, ev.headers, a, <<>>, Room(ev.ver))
      w == Whole1(x)
      h == ToSign(x, ev.addr, ev.ver)
  IN  <<"ok", <<put(Internal(T, fid, ev.ins, ev.vals, ev.ver)), put(Internal(T, EventId(ev), ev.ins, ev.vals, ev.ver)),
                put(Internal(T, OutId(ev), ev.ins, ev.vals, ev.ver)),
                put(Unsigned(T, fid, ev.ins, ev.vals, ev.ver, ev.headers, a))>>,
        IF ~x[4] THEN <<>>
        ELSE <<w[2], put(Filled(x, ev.sig, ev.ver)), put(Filled(x, "", ev.ver)), h, a.expire,
               (IF ev.net = "" THEN "" ELSE Hex(ev.net)) \o h>>>>
SStep(tr, s, ev) ==
  LET T == tr.cells IN
  <<s, IF ev.r[1] \notin {"ok", "err"} THEN "no answer"
       ELSE CASE ev.op = "enc" -> Cell(T, ev.r, Encode(T, ev.ty, ev.v, ev.ver))
              [] ev.op = "dec" -> Read(ev.r, ev.ty, DecodeCell(T, ev.cell, ev.ty, ev.ver, ev.partial))
              [] ev.op = "default" -> IF Same(ev.ty, ev.r[2], Default(T, ev.ty)) THEN "" ELSE "expected " \o ToString(Default(T, ev.ty))
              [] ev.op = "type" -> LET m == MaxSize(ev.ty) IN Is(ev.r, <<"ok", Show(ev.ty, FALSE), Show(ev.ty, TRUE), m[1], m[2]>>)
              [] ev.op = "fn" -> Is(ev.r, Names(ev))
              [] ev.op = "call" -> Is(ev.r, Made(T, ev))
              [] ev.op = "input" -> LET id == CASE ev.how = "event" -> EventId(ev) [] ev.how = "output" -> OutId(ev) [] OTHER -> InId(ev) IN
                                    Read(ev.r, <<"tuple", ev.ins>>, Call(T, ev.cell, ev.how, id, ev.headers, ev.ins, ev.ver, ev.partial))
              [] ev.op = "init" -> Cell(T, ev.r, IF ev.old = 0 THEN InitData(T, ev.data, ev.vals, ev.pubkey, ev.ver)
                                                 ELSE Update(T, ev.data, ev.vals, IF ev.set THEN ev.pubkey ELSE "", ev.ver, ev.old))
              [] ev.op = "uninit" -> LET q == InitValues(T, ev.data, ev.cell, ev.ver)
                                         ts == <<"tuple", [j \in 1..Len(ev.data) |-> ev.data[j][3]]>>
                                     IN  IF q = <<>> THEN (IF ev.r[1] = "err" THEN "" ELSE "read what is not initial data")
                                         ELSE IF ev.r[1] = "err" THEN "not read: " \o ToString(q)
                                         ELSE IF Same(ts, q[1], [j \in 1..Len(ev.r[2]) |-> ev.r[2][j][2]]) THEN "" ELSE "expected " \o ToString(q)
              [] ev.op = "fields" -> Cell(T, ev.r, Encode(T, <<"tuple", ev.fields>>, ev.vals, ev.ver))
              [] ev.op = "unfields" -> Read(ev.r, <<"tuple", ev.fields>>, DecodeCell(T, ev.cell, <<"tuple", ev.fields>>, ev.ver, ev.partial))>>
=============================================================================
