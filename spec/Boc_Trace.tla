------------------------------ MODULE Boc_Trace ------------------------------
EXTENDS Boc, TraceRun

Load(rows) == FoldLeft(LAMBDA tab, row : Append(tab, MakeIn(tab, row[1], row[2], row[3])), <<>>, rows)
(* every cell that occurs, as its accessors show it *)
SInit(tr) == [tab |-> Load(tr.cells), maker |-> <<>>]

Limit(k, dflt) == IF k < 0 THEN dflt ELSE k
NumHex(k, n) == Hex(Nat2Bits(k, 8 * n))
Hashes(tab, ids) == [j \in 1..Len(ids) |-> tab[ids[j]].h[3]]

(* cells made on the way, numbered as the harness numbers them *)
Put(s, ev, c) ==
  IF Bad(c) THEN (IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "expected an error">>)
  ELSE IF ev.r[1] # "ok" THEN <<s, "expected a cell">>
  ELSE IF s.tab[ev.r[2]].h[3] # c.h[3] THEN <<s, "another cell">>
  ELSE <<[s EXCEPT !.maker = Append(@, c)], "">>

Dec(s, ev, p) ==
  IF ~p.ok THEN (IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "accepted what is not a bag of cells">>)
  ELSE IF ev.r[1] # "ok" THEN <<s, "rejected a bag of cells">>
  ELSE IF Hashes(s.tab, ev.r[2]) # RootHashes(p) THEN <<s, "other cells than the bytes denote">>
  ELSE <<s, "">>
(* More roots than distinct cells cannot be written. *)
Distinct(s, roots) == Cardinality({s.tab[k].h[3] : k \in Reach(s.tab, {roots[j] : j \in 1..Len(roots)})})
Enc(s, ev, roots, may) ==
  IF ev.r[1] # "ok" THEN <<s, "expected an encoding">>
  ELSE LET h == ev.r[2]
           e == EncProblem(h, s.tab, roots, ev.crc, may)
       IN  IF e[1] # "" THEN <<s, e[1]>>
           ELSE IF SubSeq(ev.r, 3, 6) # e[2] THEN <<s, "sizes announced">>
           ELSE <<s, "">>

SStep(tr, s, ev) ==
  IF ev.r[1] = "panic" THEN <<s, "panicked">>
  ELSE IF ev.r[1] = "tool" THEN <<s, "the harness does not know this operation">>
  ELSE IF ev.r[1] = "differs" THEN <<s, "the ways to do it do not agree">>
  ELSE CASE
     ev.op = "enc" -> Enc(s, ev, ev.roots, FALSE)
  [] ev.op = "dec" -> Dec(s, ev, Parse(ev.h, Limit(ev.lo, 0), Limit(ev.hi, MaxRoots)))
  [] ev.op = "renc" ->
       LET p == Parse(ev.h, 0, MaxRoots) IN
       IF ~p.ok THEN (IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "accepted what is not a bag of cells">>)
       ELSE IF ev.r[1] # "ok" THEN <<s, "rejected a bag of cells">>
       ELSE IF Hashes(s.tab, ev.r[7]) # RootHashes(p) THEN <<s, "other cells than the bytes denote">>
       ELSE IF Len(ev.r[7]) > Distinct(s, ev.r[7]) THEN <<s, "">>
       ELSE Enc(s, ev, ev.r[7], ~ev.plain /\ \E j \in 1..p.n : p.raws[j].sh = 1)
  [] ev.op = "deep" ->
       (* a chain of n cells has depth n - 1, which is at most 65535 *)
       IF ev.n > 65536 THEN (IF ev.r[1] = "err" THEN <<s, "">> ELSE <<s, "deeper than cells can be">>)
       ELSE IF ev.r = <<"ok", ev.n - 1, TRUE, TRUE, TRUE>> THEN <<s, "">> ELSE <<s, "a deep chain does not survive">>
  [] ev.op = "exact" ->
       (* the header of a bag of n cells that take `size` bytes *)
       LET ref == BytesFor(ev.n)
           off == BytesFor(ev.size)
           head == Generic \o HexByte(ref + (IF ev.crc THEN 64 ELSE 0)) \o HexByte(off)
                   \o NumHex(ev.n, ref) \o NumHex(1, ref) \o NumHex(0, ref) \o NumHex(ev.size, off) \o NumHex(0, ref)
           len == NBytes(head) + ev.size + (IF ev.crc THEN 4 ELSE 0)
       IN  IF ev.w # ref THEN <<s, "the harness is wrong about the width">>
           ELSE IF ev.r = <<"ok", ev.r[2], len, <<len, ev.size, off, ref>>, TRUE>> /\ StartsWith(head, ev.r[2] \o "") THEN <<s, "">>
           ELSE <<s, "expected " \o ToString(<<head, len>>)>>
  [] ev.op = "wide" -> IF ev.r = <<"ok", TRUE, TRUE>> THEN <<s, "">> ELSE <<s, "a large bag does not survive">>
  [] ev.op = "cell" -> Put(s, ev, MakeIn(s.maker, ev.x, ev.v, ev.refs))
  [] ev.op = "prune" -> Put(s, ev, Prune(s.maker[ev.c], ev.n))
  [] ev.op = "proof" -> Put(s, ev, MakeIn(s.maker, 1, ProofBits(s.maker[ev.c]), <<ev.c>>))
  [] ev.op = "update" -> Put(s, ev, MakeIn(s.maker, 1, UpdateBits(s.maker[ev.c], s.maker[ev.c2]), <<ev.c, ev.c2>>))
  [] ev.op = "library" -> Put(s, ev, MakeIn(s.maker, 1, "00000010" \o Unhex(ev.h), <<>>))
=============================================================================
