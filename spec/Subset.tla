------------------------------- MODULE Subset --------------------------------
(***************************************************************************)
(* Which validators serve a shard: a weighted pseudo-random selection      *)
(* without repetition.  Numbers are bit strings.                           *)
(***************************************************************************)
EXTENDS Bits, Integers, Sequences, SequencesExt

(* the i-th random number, from 0: eight from every digest of the seed, which counts up, and of what the list is for *)
Context(from, sh, seqno, k) == BAdd(from, Nat2Bits(k, 32), 256) \o sh.prefix \o sh.wc \o seqno
Word(d, j) == Take(Drop(d, 64 * j), 64)
Digests(from, sh, seqno, n) == [k \in 1..n |-> Unhex(Sha512(Hex(Context(from, sh, seqno, k - 1))))]
Random(from, sh, seqno, n) ==
  LET d == TLCEval(Digests(from, sh, seqno, CeilDiv(n, 8))) IN [i \in 1..n |-> Word(d[1 + (i - 1) \div 8], (i - 1) % 8)]
(* a number below range *)
Below(x, range) == Take(BMul(Widen(StripZ(x), 128), Widen(StripZ(range), 128), 128), 64)

(*------------------------------- weighted -------------------------------*)
Sum(ws) == FoldLeft(LAMBDA a, w : BAdd(a, w, 64), Rep("0", 64), ws)
(* among those that are left, in the order of the list, the one whose share of the total covers p *)
Covers(ws, left, p) ==
  FoldLeft(LAMBDA a, j : IF a.k > 0 THEN a
                         ELSE IF BCmp(p, BAdd(a.sum, ws[j], 64)) < 0 THEN [a EXCEPT !.k = j]
                         ELSE [a EXCEPT !.sum = BAdd(@, ws[j], 64)],
           [sum |-> Rep("0", 64), k |-> 0], left).k
(* the positions of n members with weights ws, with random numbers rs *)
Select(ws, n, rs) ==
  FoldLeft(LAMBDA a, i : LET p == Below(rs[i], Sum([j \in 1..Len(a.left) |-> ws[a.left[j]]]))
                             k == Covers(ws, a.left, p)
                         IN  [out |-> Append(a.out, k), left |-> SelectSeq(a.left, LAMBDA j : j # k)],
           [out |-> <<>>, left |-> [j \in 1..Len(ws) |-> j]], [i \in 1..n |-> i]).out

(*------------------------------- shuffled -------------------------------*)
(* js: a position not after i for every i *)
Shuffle(js) ==
  FoldLeft(LAMBDA a, i : IF js[i] = i THEN Append(a, i) ELSE [Append(a, a[js[i]]) EXCEPT ![js[i]] = i], <<>>, [i \in 1..Len(js) |-> i])

(* the short hash of a list of <<key, weight, address or "", ...>> *)
RECURSIVE SwapBytes(_)
SwapBytes(h) == IF h = "" THEN "" ELSE SwapBytes(Drop(h, 2)) \o Take(h, 2)
HashOf(list, seqno) ==
  LET body == FoldLeft(LAMBDA a, d : a \o d[1] \o SwapBytes(Hex(d[2])) \o (IF d[3] = "" THEN Rep("0", 64) ELSE d[3]), "", list)
      all == "ed601690" \o SwapBytes(Hex(seqno)) \o SwapBytes(Hex(Nat2Bits(Len(list), 32))) \o body
  IN  Unhex(SwapBytes(Crc32cLE(all)))

None == [ok |-> FALSE, list |-> <<>>]
(* list: members <<key, weight, address or "", since>> *)
MasterSubset(list, main, shuffle, seqno) ==
  LET n == Min2(Len(list), main)
      sh == [wc |-> Rep("1", 32), prefix |-> "1" \o Rep("0", 63)]
      rs == Random(Rep("0", 256), sh, seqno, n)
      ix == IF shuffle THEN Shuffle([i \in 1..n |-> 1 + Bits2Nat(Drop(Below(rs[i], Nat2Bits(i, 64)), 33))]) ELSE [i \in 1..n |-> i]
  IN  [ok |-> TRUE, list |-> [i \in 1..n |-> list[ix[i]]]]
ShardSubset(list, main, cfg, sh, seqno) ==
  IF sh.wc = Rep("1", 32) THEN MasterSubset(list, main, cfg.shuffle, seqno)
  ELSE IF cfg.isolate /\ Len(list) <= main THEN None
  ELSE LET from == IF cfg.isolate THEN SubSeq(list, main + 1, Len(list)) ELSE list
           n == Min2(Len(from), cfg.num)
           ix == Select([j \in 1..Len(from) |-> from[j][2]], n, Random(Rep("0", 256), sh, seqno, n))
       IN  [ok |-> TRUE, list |-> [i \in 1..n |-> <<from[ix[i]][1], Nat2Bits(1, 64), from[ix[i]][3], 0>>]]
=============================================================================
