----------------------------- MODULE Bitio_Trace -----------------------------
EXTENDS Bitio, TraceRun

SInit(tr) == [B |-> [k \in 0..2 |-> NewB], S |-> [k \in 0..3 |-> NewS]]

Good(s) == <<s, "">>
Tagged(ev, exp) == "expected " \o ToString(exp)
Want(s, ev, exp) == IF ev.r = exp THEN Good(s) ELSE <<s, Tagged(ev, exp)>>
Fail(s, ev) == IF ev.r[1] = "err" /\ ev.r[3] = "same" THEN Good(s) ELSE <<s, "expected an error without effect">>
(* what the harness reports of a builder; the last item: equal to a fresh one with this content *)
BView(b) == <<b.b, b.r, b.x, TRUE>>
SView(w) == <<w.s, SLen(w), w.rs, SRef(w)>>
(* builder op that changes register k to b *)
ToB(s, ev, k, b) == Want([s EXCEPT !.B[k] = b], ev, <<"ok", BView(b)>>)
Put(s, ev, v, refs) ==
  IF Room(s.B[ev.b], Len(v), Len(refs)) THEN ToB(s, ev, ev.b, App(s.B[ev.b], v, refs)) ELSE Fail(s, ev)
(* n bits that are only worth computing when they fit *)
PutN(s, ev, n, F(_)) == IF Room(s.B[ev.b], n, 0) THEN Put(s, ev, F(n), <<>>) ELSE Fail(s, ev)
(* slice op with result v that leaves window w *)
ToS(s, ev, v, w) == Want([s EXCEPT !.S[ev.s] = w], ev, <<"ok", v, SView(w)>>)

Arg(ev) == IF "pow" \in DOMAIN ev THEN <<"+", "1" \o Rep("0", ev.pow)>> ELSE ev.x

SStep(tr, s, ev) ==
  LET T == tr.cells
      b == s.B[ev.b]
      w == s.S[ev.s]
      v == SBits(T, w)
      rs == SRefs(T, w)
      has(f) == f \in DOMAIN ev
      o == IF has("o") THEN ev.o ELSE 0
      ld == has("ld") /\ ev.ld
      (* read n bits at offset o, as F of them *)
      Read(n, F(_)) == IF o + n > Len(v) THEN Fail(s, ev)
                       ELSE ToS(s, ev, F(SubSeq(v, o + 1, o + n)), IF ld THEN SkipFirst(w, n, 0) ELSE w)
      Id(x) == x
      Move(w2) == IF Has(w, ev.n, ev.rn) THEN ToS(s, ev, 0, w2) ELSE Fail(s, ev)
  IN
  IF ev.r[1] = "panic" THEN <<s, "panicked">>
  ELSE IF ev.r[1] = "tool" THEN <<s, "the harness does not know this operation">>
  ELSE CASE
  (*------------------------------ builders ------------------------------*)
     ev.op = "zeros" -> PutN(s, ev, ev.n, LAMBDA n : Rep("0", n))
  [] ev.op = "ones" -> PutN(s, ev, ev.n, LAMBDA n : Rep("1", n))
  [] ev.op = "store" -> Put(s, ev, ev.v, <<>>)              \* fixed width, all of v
  [] ev.op \in {"small", "uint"} -> PutN(s, ev, ev.n, LAMBDA n : UBits(ev.v, n))
  [] ev.op = "raw" -> PutN(s, ev, ev.n, LAMBDA n : RBits(ev.v, n))
  [] ev.op = "big" ->
       IF ~ev.trunc /\ BitSize(Arg(ev), ev.signed) > ev.n THEN Fail(s, ev)
       ELSE PutN(s, ev, ev.n, LAMBDA n : IBits(Arg(ev), n))
  [] ev.op = "varbig" ->
       LET bytes == CeilDiv(BitSize(Arg(ev), ev.signed), 8) IN
       IF BitLen(bytes) > ev.n \/ ~Room(b, ev.n + bytes * 8, 0) THEN Fail(s, ev)
       ELSE Put(s, ev, UBits(Nat2Bits(bytes, 16), ev.n) \o IBits(Arg(ev), bytes * 8), <<>>)
  [] ev.op = "celldata" -> Put(s, ev, T[ev.c][2], <<>>)
  [] ev.op = "slicedata" -> Put(s, ev, v, <<>>)
  [] ev.op = "slice" -> Put(s, ev, v, rs)
  [] ev.op = "builder" -> Put(s, ev, s.B[ev.b2].b, s.B[ev.b2].r)
  [] ev.op = "bslice" -> Put(s, ev, s.B[ev.b2].b, IF ev.full THEN s.B[ev.b2].r ELSE <<>>)
  [] ev.op = "ref" -> Put(s, ev, "", <<ev.c>>)
  [] ev.op = "typed" -> IF Room(b, Len(ev.v), Len(ev.cs)) THEN Put(s, ev, ev.v, ev.cs)
                        ELSE IF ev.r[1] = "err" THEN Good(s) ELSE <<s, "expected an error">>
  [] ev.op = "setrefs" -> ToB(s, ev, ev.b, [b EXCEPT !.r = ev.cs])
  [] ev.op = "prepend" -> IF ~Room(b, ev.n, 0) THEN Fail(s, ev) ELSE ToB(s, ev, ev.b, [b EXCEPT !.b = RBits(ev.v, ev.n) \o @])
  [] ev.op = "rewind" -> IF ev.n > Len(b.b) THEN Fail(s, ev) ELSE ToB(s, ev, ev.b, [b EXCEPT !.b = Take(@, Len(@) - ev.n)])
  [] ev.op = "clear" -> ToB(s, ev, ev.b, [b EXCEPT !.b = ""])
  [] ev.op = "exotic" -> ToB(s, ev, ev.b, [b EXCEPT !.x = ev.n])
  [] ev.op = "newb" -> ToB(s, ev, ev.b, NewB)
  [] ev.op = "copyb" -> ToB(s, ev, ev.b, s.B[ev.b2])
  [] ev.op = "fromraw" -> IF ev.n > MaxB THEN Fail(s, ev) ELSE ToB(s, ev, ev.b, [NewB EXCEPT !.b = RBits(ev.v, ev.n)])
  [] ev.op = "capacity" ->
       Want(s, ev, <<"ok", Room(b, ev.n, ev.rn), Len(b.b) + ev.n <= MaxB, MaxB - Len(b.b), MaxR - Len(b.r), Len(b.b), Len(b.r)>>)
  [] ev.op = "beq" -> LET a == s.B[ev.b2] IN
       Want(s, ev, <<"ok", b = a, BOrd(b, a, tr.cfg.hash), b.b = a.b,
                     IF Len(b.b) # Len(a.b) THEN (IF Len(b.b) < Len(a.b) THEN -1 ELSE 1) ELSE Cmp(b.b, a.b)>>)
  [] ev.op = "bshow" -> Want(s, ev, <<"ok", Hex_(b.b), b.b>>)
  [] ev.op = "build" ->
       (* the cell made is row ev.r[2] of the table, and a slice of it is put in a register *)
       IF b.x = 1 THEN Good(s)
       ELSE IF ev.r[1] # "ok" THEN <<s, "cannot be built">>
       ELSE IF T[ev.r[2]] # <<0, b.b, b.r>> THEN <<s, "built " \o ToString(T[ev.r[2]])>>
       ELSE Good([s EXCEPT !.S[ev.s] = Full(T, ev.r[2])])
  (*------------------------------- slices -------------------------------*)
  [] ev.op = "mk" ->
       IF T[ev.c][1] = 1 /\ ~ev.allow THEN (IF ev.r[1] = "err" THEN Good(s) ELSE <<s, "expected an error">>)
       ELSE ToS(s, ev, 0, Full(T, ev.c))
  [] ev.op = "default" -> ToS(s, ev, 0, NewS)
  [] ev.op = "apply" -> IF T[ev.c][1] = 1 THEN Fail(s, ev) ELSE ToS(s, ev, 0, Cut(T, w, ev.c))
  [] ev.op = "copys" -> ToS([s EXCEPT !.S[ev.s] = s.S[ev.s2]], ev, 0, s.S[ev.s2])
  [] ev.op = "read" -> Read(ev.n, Id)                      \* fixed width
  [] ev.op = "rsmall" -> IF ev.n > 8 THEN Fail(s, ev) ELSE IF ev.n = 0 THEN ToS(s, ev, "", w) ELSE Read(ev.n, Id)
  [] ev.op = "ruint" -> IF ev.n > 64 THEN Fail(s, ev) ELSE IF ev.n = 0 THEN ToS(s, ev, "", w) ELSE Read(ev.n, Id)
  [] ev.op = "rraw" -> IF ev.n = 0 THEN ToS(s, ev, "", w)
                       ELSE IF o + ev.n <= Len(v) /\ CeilDiv(ev.n, 8) > ev.buf THEN Fail(s, ev)
                       ELSE Read(ev.n, LAMBDA x : PadTo(x, 8))
  [] ev.op = "rbig" ->
       IF ev.n > Len(v) THEN Fail(s, ev)
       ELSE LET x == Take(v, ev.n) IN ToS(s, ev, IF ev.signed THEN SInt(x) ELSE <<"+", StripZ(x)>>, SkipFirst(w, ev.n, 0))
  [] ev.op = "rvarbig" ->
       IF ev.n > 64 \/ ev.n > Len(v) THEN Fail(s, ev)
       ELSE LET l == StripZ(Take(v, ev.n)) IN
            IF Len(l) > 10 THEN Fail(s, ev)
            ELSE LET n == ev.n + 8 * Bits2Nat(l) IN
                 IF n > Len(v) THEN Fail(s, ev)
                 ELSE LET x == SubSeq(v, ev.n + 1, n)
                      IN  ToS(s, ev, IF ev.signed THEN SInt(x) ELSE <<"+", StripZ(x)>>, SkipFirst(w, n, 0))
  [] ev.op = "rtyped" ->
       (* the type says how the bits and references are laid out: ev.n, ev.rn when present *)
       LET opt == BitAt(ev.t, 1) = "o"
           none == opt /\ Len(v) > 0 /\ BitAt(v, 1) = "0"
           n == IF none THEN 1 ELSE ev.n + (IF opt THEN 1 ELSE 0)
           rn == IF none THEN 0 ELSE ev.rn
           zero == BitAt(ev.t, 1) = "z" /\ Uniform(Take(v, n)) /\ n <= Len(v) /\ BitAt(v, 1) = "0"
       IN  IF n > Len(v) \/ rn > Len(rs) \/ zero
           THEN (IF ev.r[1] = "err" THEN Good([s EXCEPT !.S[ev.s] = NewS]) ELSE <<s, "expected an error">>)
           ELSE ToS(s, ev, <<Take(v, n), Take(rs, rn)>>, SkipFirst(w, n, rn))
  [] ev.op = "skipfirst" -> Move(SkipFirst(w, ev.n, ev.rn))
  [] ev.op = "onlyfirst" -> Move(OnlyFirst(w, ev.n, ev.rn))
  [] ev.op = "skiplast" -> Move(SkipLast(w, ev.n, ev.rn))
  [] ev.op = "onlylast" -> Move(OnlyLast(w, ev.n, ev.rn))
  [] ev.op = "prefix" ->
       IF ~Has(w, ev.n, ev.rn) THEN Fail(s, ev)
       ELSE LET p == OnlyFirst(w, ev.n, ev.rn) IN ToS([s EXCEPT !.S[ev.s2] = p], ev, SView(p), SkipFirst(w, ev.n, ev.rn))
  [] ev.op = "suffix" ->
       IF ~Has(w, ev.n, ev.rn) THEN Fail(s, ev)
       ELSE LET p == OnlyLast(w, ev.n, ev.rn) IN ToS([s EXCEPT !.S[ev.s2] = p], ev, SView(p), SkipLast(w, ev.n, ev.rn))
  [] ev.op = "rest" -> ToS([s EXCEPT !.S[ev.s2] = w], ev, SView(w), SkipFirst(w, SLen(w), SRef(w)))
  [] ev.op = "getprefix" -> ToS(s, ev, 0, Prefix(w, ev.n, ev.rn))
  [] ev.op = "norefs" -> ToS(s, ev, 0, SkipFirst(w, 0, SRef(w)))
  [] ev.op = "rref" ->
       LET k == IF ld THEN 0 ELSE ev.n IN
       IF k >= Len(rs) \/ (ev.slice /\ T[rs[k + 1]][1] = 1) THEN Fail(s, ev)
       ELSE LET w2 == IF ld THEN SkipFirst(w, 0, 1) ELSE w IN
            IF ev.slice THEN ToS([s EXCEPT !.S[ev.s2] = Full(T, rs[k + 1])], ev, SView(Full(T, rs[k + 1])), w2)
            ELSE ToS(s, ev, rs[k + 1], w2)
  [] ev.op = "refs" -> ToS(s, ev, <<rs, rs, [j \in 1..Len(rs) |-> rs[Len(rs) + 1 - j]], Len(rs)>>, w)
  [] ev.op = "info" -> ToS(s, ev, <<Has(w, ev.n, ev.rn), v = "" /\ rs = <<>>, v = "", rs = <<>>,
                                    w.c = 0 \/ w = Full(T, w.c)>>, w)
  [] ev.op = "content" -> ToS(s, ev, <<v, rs, Hex_(v), v>>, w)
  [] ev.op = "pair" ->
       LET w2 == s.S[ev.s2] u == SBits(T, w2) us == SRefs(T, w2) l == LcpLen(v, u)
       IN  ToS(s, ev, <<Cmp(v, u), v = u /\ [j \in 1..Len(rs) |-> tr.cfg.hash[rs[j]]] = [j \in 1..Len(us) |-> tr.cfg.hash[us[j]]],
                        StartsWith(v, u), Suffix(v, u),
                        IF StartsWith(u, v) THEN <<SView(SkipFirst(w, Len(u), 0))>> ELSE <<>>,
                        SView(OnlyFirst(w, l, 0))>>, w)
  [] ev.op = "scan" ->
       ToS(s, ev, <<Leading(v, "0"), Leading(v, "1"), Trailing(v, "0"), Trailing(v, "1"),
                    IF v = "" THEN <<>> ELSE IF Uniform(v) THEN <<BitAt(v, 1)>> ELSE <<>> >>, w)
  (*-------------------------------- text --------------------------------*)
  [] ev.op = "parse" ->
       (* h hex digits (lower case form), perhaps with a tag, or junk *)
       IF ev.junk \/ (~ev.tag /\ 4 * Len(ev.h) > 1024) \/ (ev.tag /\ 4 * Len(ev.h) > 1024)
       THEN (IF ev.r[1] = "err" THEN Good(s) ELSE <<s, "expected an error">>)
       ELSE LET x == Unhex_(ev.h, ev.tag) IN Want(s, ev, <<"ok", Len(x), PadTo(x, 8)>>)
=============================================================================
