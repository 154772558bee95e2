------------------------------- MODULE Boc_MC --------------------------------
(***************************************************************************)
(* Small bags, written in every way the format has, and every way of       *)
(* damaging a byte of them.                                                *)
(***************************************************************************)
EXTENDS Boc, Json

CONSTANTS Mode          \* "forms": all headers; "graphs": all small graphs; "bytes": all one-byte damages
VARIABLES bag, pos

(* a bag: cells [x, b, refs (zero-based), sh], roots, and the header *)
Rep0(n) == Hex(Nat2Bits(0, 8 * n))
NumHex(k, n) == Hex(Nat2Bits(k, 8 * n))
Wide(k, n) == IF n <= 3 THEN NumHex(k, n) ELSE Rep("00", n - 3) \o NumHex(k, 3)

TableOf(cs) == BuildAs(cs, FALSE)
CellHex(b, k, tab) ==
  LET c == b.cells[k]
      v == tab[Len(b.cells) + 1 - k]
  IN  HexByte(D1(c.x, v.m, Len(c.refs)) + 16 * c.sh) \o HexByte(D2(c.b)) \o (IF c.sh = 1 THEN StoredHex(v) ELSE "")
      \o DataHex(c.b) \o Join([j \in 1..Len(c.refs) |-> Wide(c.refs[j], b.ref)])
Write(b) ==
  LET tab == TableOf(b.cells).tab
      cs == [k \in 1..Len(b.cells) |-> CellHex(b, k, tab)]
      body == Join(cs)
      gen == b.tag = Generic
      ends == [k \in 1..Len(cs) |-> NBytes(Join(SubSeq(cs, 1, k)))]
      raw == b.tag \o HexByte(b.ref + (IF gen THEN (IF b.idx THEN 128 ELSE 0) + (IF b.crc THEN 64 ELSE 0) + (IF b.cache THEN 32 ELSE 0) ELSE 0))
             \o HexByte(b.off) \o Wide(Len(cs), b.ref) \o Wide(Len(b.roots), b.ref) \o Wide(0, b.ref) \o Wide(NBytes(body), b.off)
             \o (IF gen THEN Join([j \in 1..Len(b.roots) |-> Wide(b.roots[j], b.ref)]) ELSE "")
             \o (IF b.idx THEN Join([k \in 1..Len(cs) |-> Wide(ends[k], b.off)]) ELSE "") \o body
  IN  raw \o (IF b.crc THEN Crc32cLE(raw) ELSE "")

Plain(b, refs) == [x |-> 0, b |-> b, refs |-> refs, sh |-> 0]
Lib == [x |-> 1, b |-> "00000010" \o Unhex(Rep("5b", 32)), refs |-> <<>>, sh |-> 0]
Pruned(m) == [x |-> 1, b |-> "00000001" \o Nat2Bits(m, 8) \o Unhex(Rep("6c", 32 * Ones(m))) \o Rep("0000000000000101", Ones(m)), refs |-> <<>>, sh |-> 0]
Default == [tag |-> Generic, ref |-> 1, off |-> 1, idx |-> FALSE, crc |-> FALSE, cache |-> FALSE, roots |-> <<0>>, cells |-> <<Plain("", <<>>)>>]

Graphs1 == {<<Plain(b, <<>>)>> : b \in {"", "1", "10101010", "110011001"}} \cup {<<Lib>>, <<Pruned(1)>>, <<Pruned(5)>>}
Sub(cs) == {<<>>} \cup {<<k>> : k \in 1..Len(cs)} \cup {<<k, l>> : k \in 1..Len(cs), l \in 1..Len(cs)}
On(cs, shs) == {<<[Plain(b, r) EXCEPT !.sh = s]>> \o [j \in 1..Len(cs) |-> [cs[j] EXCEPT !.refs = [i \in 1..Len(@) |-> @[i] + 1]]] :
                  b \in {"", "1011"}, r \in Sub(cs), s \in shs}
Graphs2 == UNION {On(cs, {0, 1}) : cs \in Graphs1}
Graphs3 == UNION {On(cs, {0}) : cs \in Graphs2}

Forms ==
  {[Default EXCEPT !.tag = t[1], !.idx = t[2], !.crc = t[3], !.cache = t[4], !.ref = r, !.off = o, !.cells = cs, !.roots = ro] :
     t \in {<<Generic, i, c, a>> : i \in BOOLEAN, c \in BOOLEAN, a \in BOOLEAN} \cup {<<Indexed, TRUE, FALSE, FALSE>>, <<IndexedCrc, TRUE, TRUE, FALSE>>},
     r \in 1..4, o \in {1, 2, 3, 8}, ro \in {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<1, 1>>, <<0, 1, 1>>},
     cs \in {<<Plain("", <<>>)>>, <<Plain("1", <<1>>), Plain("0", <<>>)>>, <<Plain("1", <<1, 1>>), Lib>>, <<Plain("", <<>>), Pruned(1)>>}}
GraphBags == {[Default EXCEPT !.cells = cs, !.roots = r, !.crc = (Len(r) = 2), !.off = 2] :
                cs \in (Graphs1 \cup Graphs2 \cup Graphs3), r \in {<<0>>, <<0, 1>>}}
Samples ==
  {[Default EXCEPT !.cells = <<Plain("1", <<1>>), Plain("0", <<>>)>>],
   [Default EXCEPT !.cells = <<Plain("1011011", <<1, 2>>), Plain("00001111", <<2>>), Plain("", <<>>)>>, !.roots = <<0, 1>>],
   [Default EXCEPT !.cells = <<[Plain("11", <<1>>) EXCEPT !.sh = 1], Pruned(1)>>, !.off = 2],
   [Default EXCEPT !.cells = <<Plain("1", <<1>>), Plain("0", <<>>)>>, !.tag = IndexedCrc, !.idx = TRUE, !.crc = TRUE],
   [Default EXCEPT !.cells = <<Plain("1", <<1>>), Plain("0", <<>>)>>, !.idx = TRUE, !.cache = TRUE, !.ref = 2]}

Init == /\ bag \in (IF Mode = "forms" THEN Forms ELSE IF Mode = "graphs" THEN GraphBags ELSE Samples)
        /\ pos = 0
Next == Mode = "bytes" /\ pos < NBytes(Write(bag)) /\ pos' = pos + 1 /\ bag' = bag

(* Parsing is the inverse of writing, for what can be written at all. *)
Writable == /\ \A j \in 1..Len(bag.roots) : bag.roots[j] < Len(bag.cells)
            /\ Len(bag.roots) <= Len(bag.cells)
            /\ bag.tag = Generic \/ bag.roots = <<0>>
            /\ bag.cache => bag.idx
            /\ LET size == NBytes(Join([k \in 1..Len(bag.cells) |-> CellHex(bag, k, TableOf(bag.cells).tab)])) IN
               /\ size < 256 \/ bag.off > 1
               (* every cell that is not a root takes a reference *)
               /\ size >= Len(bag.cells) * (2 + bag.ref) - Len(bag.roots) * bag.ref
RoundTrip ==
  LET t == TableOf(bag.cells) IN
  t.ok => LET p == Parse(Write(bag), 0, MaxRoots) IN
          IF ~Writable THEN bag.tag # Generic \/ ~p.ok
          ELSE /\ p.ok
               /\ p.used = NBytes(Write(bag))
               /\ RootHashes(p) = [j \in 1..Len(bag.roots) |-> t.tab[Len(bag.cells) - bag.roots[j]].h[3]]
(* A damaged byte before the checksum is noticed when there is one. *)
Noticed == Mode # "bytes" \/ ~bag.crc \/ pos = 0 \/
           \A v \in {0, 1, 127, 128, 255} :
             LET h == Write(bag) IN
             SubSeq(h, 2 * pos - 1, 2 * pos) = HexByte(v) \/ pos <= 6 \/ ~Parse(Take(h, 2 * pos - 2) \o HexByte(v) \o Drop(h, 2 * pos), 0, MaxRoots).ok

Event(h, lo, hi) == [op |-> "dec", h |-> h, lo |-> lo, hi |-> hi]
Again(h, plain) == [op |-> "renc", h |-> h, crc |-> ~plain, plain |-> plain]
Events ==
  LET h == Write(bag) IN
  IF Mode = "bytes" THEN
    IF pos = 0 THEN <<Event(h, -1, -1)>>
    ELSE [v \in 1..256 |-> Event(Take(h, 2 * pos - 2) \o HexByte(v - 1) \o Drop(h, 2 * pos), -1, -1)]
         \o <<Event(Take(h, 2 * pos - 2), -1, -1), Event(h \o Rep("00", pos), 1, 2), Event(Take(h, 2 * pos - 2) \o Drop(h, 2 * pos), -1, -1)>>
  ELSE <<Event(h, -1, -1), Event(h, 1, 1), Event(h, 2, 2), Event(h, 2, -1), Event(h, -1, 0), Again(h, FALSE), Again(h, TRUE)>>
Gen == ~TableOf(bag.cells).ok \/ PrintT("GEN " \o ToJson([cfg |-> [none |-> 0], ev |-> Events]))
=============================================================================
