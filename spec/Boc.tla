--------------------------------- MODULE Boc ---------------------------------
(***************************************************************************)
(* The bag-of-cells format: a parser of byte strings (written in hex) and  *)
(* what a well-made encoding of given roots is.                            *)
(***************************************************************************)
EXTENDS Cells, SequencesExt

NBytes(h) == Len(h) \div 2
Bytes(h, o, n) == SubSeq(h, 2 * o + 1, 2 * (o + n))          \* n bytes at offset o
BitsAt(h, o, n) == Unhex(Bytes(h, o, n))
(* numbers of 2^24 and more exceed every input; they are all the same here *)
Huge == 100000000
Num(h, o, n) == LET b == StripZ(BitsAt(h, o, n)) IN IF Len(b) > 24 THEN Huge ELSE Bits2Nat(b)

Generic == "b5ee9c72"
Indexed == "68ff65f3"
IndexedCrc == "acc3a728"
MaxRoots == 32

Reject == [ok |-> FALSE]

(* One raw cell at offset o, not going beyond `size`: [len, x, m, sh, stored, b, refs], or len = 0. *)
NoRaw == [len |-> 0]
RawAt(h, o, size, ref) ==
  IF o + 2 > size THEN NoRaw
  ELSE
    LET d1 == Num(h, o, 1)
        d2 == Num(h, o + 1, 1)
        n == d1 % 8
        x == (d1 \div 8) % 2
        sh == (d1 \div 16) % 2
        m == d1 \div 32
        dl == (d2 + 1) \div 2
        ext == IF sh = 1 THEN 34 * (Ones(m) + 1) ELSE 0
        len == 2 + ext + dl + n * ref
        raw == BitsAt(h, o + 2 + ext, dl)
        b == IF d2 % 2 = 0 THEN raw ELSE Take(raw, LastIdx(raw, "1") - 1)
    IN  IF \/ n > 4
           \/ (sh = 1 /\ x = 1 /\ n = 0 /\ m > 0)                  \* a pruned branch stores its hashes anyway
           \/ o + len > size
           \/ (d2 % 2 = 1 /\ Drop(raw, Len(raw) - 7) = "0000000")   \* no completion tag, or a superfluous byte
        THEN NoRaw
        ELSE [len |-> len, x |-> x, m |-> m, sh |-> sh, stored |-> Bytes(h, o + 2, ext), b |-> b,
              refs |-> TLCEval([j \in 1..n |-> Num(h, o + 2 + ext + dl + (j - 1) * ref, ref)])]

(* Folds, because TLC's recursion gets slower the deeper it is. *)
Upto(n) == [j \in 1..n |-> j]
Raws(h, at0, size, ref, n) ==
  LET step(a, j) == IF ~a.ok THEN a
                    ELSE LET c == RawAt(h, a.at, size, ref) IN
                         IF c.len = 0 THEN [a EXCEPT !.ok = FALSE] ELSE [ok |-> TRUE, cells |-> Append(a.cells, c), at |-> a.at + c.len]
  IN  IF n > size THEN [ok |-> FALSE, cells |-> <<>>, at |-> 0]
      ELSE FoldLeft(step, [ok |-> TRUE, cells |-> <<>>, at |-> at0], Upto(n))

(* From raw cells to cells, the last one first; references only go forwards. *)
BuildAs(raws, strict) ==                  \* tab maps n - k + 1 to cell k
  LET n == Len(raws)
      step(a, j) ==
        IF ~a.ok THEN a
        ELSE LET k == n - j + 1
                 c == raws[k]
             IN  IF \E r \in 1..Len(c.refs) : c.refs[r] >= n \/ c.refs[r] + 1 <= k THEN [a EXCEPT !.ok = FALSE]
                 ELSE LET v == Make(c.x, c.b, [r \in 1..Len(c.refs) |-> n - c.refs[r]],
                                    TLCEval([r \in 1..Len(c.refs) |-> a.tab[n - c.refs[r]]]))
                      IN  IF Bad(v) THEN [a EXCEPT !.ok = FALSE] ELSE IF strict /\ v.m # c.m THEN [a EXCEPT !.ok = FALSE]
                          ELSE [ok |-> TRUE, tab |-> Append(a.tab, v)]
  IN  FoldLeft(step, [ok |-> TRUE, tab |-> <<>>], Upto(n))

Build(raws) == BuildAs(raws, TRUE)

(* The whole bag.  lo and hi limit the number of roots.  What follows the bag is ignored, and so are the *)
(* contents of the index, stored hashes and the reserved flags.                                            *)
Parse(h, lo, hi) ==
  LET size == NBytes(h) IN
  IF size < 6 THEN Reject
  ELSE
   LET tag == Bytes(h, 0, 4)
       fl == BitsAt(h, 4, 1)
       gen == tag = Generic
       idx == ~gen \/ BitAt(fl, 1) = "1"
       crc == tag = IndexedCrc \/ (gen /\ BitAt(fl, 2) = "1")
       cache == gen /\ BitAt(fl, 3) = "1"
       ref == IF gen THEN Num(h, 4, 1) % 8 ELSE Num(h, 4, 1)
       off == Num(h, 5, 1)
   IN
   IF \/ tag \notin {Generic, Indexed, IndexedCrc}
      \/ (cache /\ ~idx)
      \/ ref \notin 1..4
      \/ off \notin 1..8
      \/ 6 + 3 * ref + off > size
   THEN Reject
   ELSE
    LET count == Num(h, 6, ref)
        roots == Num(h, 6 + ref, ref)
        absent == Num(h, 6 + 2 * ref, ref)
        total == Num(h, 6 + 3 * ref, off)
        at0 == 6 + 3 * ref + off
        listed == IF gen THEN roots * ref ELSE 0
        body == at0 + listed + (IF idx THEN count * off ELSE 0)
    IN
    IF \/ count = Huge \/ total = Huge
       \/ roots = 0 \/ roots + absent > count \/ absent > 0
       \/ (~gen /\ roots > 1)
       \/ roots < lo \/ roots > hi
       \/ total < count * (2 + ref) - roots * ref      \* every cell but the roots is referred to
       \/ body + total + (IF crc THEN 4 ELSE 0) > size
    THEN Reject
    ELSE
     LET rl == IF gen THEN [j \in 1..roots |-> Num(h, at0 + (j - 1) * ref, ref)] ELSE <<0>>
         r == Raws(h, body, size, ref, count)
     IN
     IF \/ \E j \in 1..Len(rl) : rl[j] >= count
        \/ ~r.ok
     THEN Reject
     ELSE IF \/ r.at # body + total
             \/ (crc /\ Crc32cLE(Bytes(h, 0, r.at)) # Bytes(h, r.at, 4))
     THEN Reject
     ELSE
      LET t == Build(r.cells) IN
      IF ~t.ok THEN Reject
      ELSE [ok |-> TRUE, tab |-> t.tab, raws |-> r.cells, n |-> count, roots |-> rl, ref |-> ref, off |-> off,
            flags |-> fl, gen |-> gen, crc |-> crc, idx |-> idx, total |-> total, used |-> r.at + (IF crc THEN 4 ELSE 0)]

CellNo(p, k) == p.tab[p.n - k]                     \* the cell with (zero-based) number k
RootHashes(p) == [j \in 1..Len(p.roots) |-> CellNo(p, p.roots[j]).h[3]]

BytesFor(k) == Max2(1, CeilDiv(BitLen(k), 8))

(* all cells below (and including) the given ones, in a table of cells *)
(* References point to smaller numbers, so one pass from above suffices. *)
Reach(tab, roots) ==
  LET n == Len(tab)
      step(a, j) == LET k == n - j + 1 IN IF k \in a THEN a \cup {tab[k].k[r] : r \in 1..Len(tab[k].k)} ELSE a
  IN  FoldLeft(step, roots, Upto(n))

StoredHex(c) ==
  LET ls == SelectSeq(<<0, 1, 2, 3>>, LAMBDA l : Sig(c.m, l)) IN
  Join([j \in 1..Len(ls) |-> c.h[ls[j]]]) \o Join([j \in 1..Len(ls) |-> Hex16(c.d[ls[j]])])
(* stored hashes, where there are some, are right *)
Deps(raws, tab) == \A k \in 1..Len(raws) : raws[k].sh = 0 \/ raws[k].stored = StoredHex(tab[Len(raws) + 1 - k])

(* What is wrong with h as an encoding of these roots ("" is nothing): they are indices in tab; and the sizes. *)
EncProblem(h, tab, roots, crc, mayStore) ==
  LET p == TLCEval(Parse(h, 1, Huge)) IN
  IF ~p.ok THEN <<"not a bag of cells">>
  ELSE <<
   IF p.used # NBytes(h) THEN "bytes after the end"
   ELSE IF ~p.gen \/ p.idx \/ p.crc # crc \/ SubSeq(p.flags, 3, 5) # "000" THEN "flags"
   ELSE IF RootHashes(p) # [j \in 1..Len(roots) |-> tab[roots[j]].h[3]] THEN "roots"
   ELSE IF p.n # Cardinality(Reach(tab, {roots[j] : j \in 1..Len(roots)})) THEN "not every distinct cell once"
   ELSE IF Cardinality({p.tab[j].h[3] : j \in 1..p.n}) # p.n THEN "a cell is there twice"
   ELSE IF p.ref # BytesFor(p.n) \/ p.off # BytesFor(p.total) THEN "widths"
   ELSE IF ~Deps(p.raws, p.tab) THEN "stored hashes"
   ELSE IF ~mayStore /\ \E j \in 1..p.n : p.raws[j].sh = 1 THEN "stored hashes that were not asked for"
   ELSE "", <<NBytes(h), p.total, p.off, p.ref>> >>
=============================================================================
