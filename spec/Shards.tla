------------------------------- MODULE Shards --------------------------------
(***************************************************************************)
(* Shards are the nodes of a binary tree of depth at most 60: paths, that  *)
(* is strings of at most 60 bits, in a workchain (32 bits).  As a number,  *)
(* a path is written <<path>>1000.. in 64 bits.                            *)
(***************************************************************************)
EXTENDS Text, Trees

MaxDepth == 60
Raw(p) == p \o "1" \o Rep("0", 63 - Len(p))
Path(u) == Take(u, LastIdx(u, "1") - 1)
Master == Rep("1", 32)
IsIdent(w, u) == LastIdx(u, "1") \in 1..(MaxDepth + 1) /\ (w = Master => Path(u) = "")

Parent(p) == Take(p, Len(p) - 1)
LastBit(p) == IF p = "" THEN "" ELSE BitAt(p, Len(p))
Other(p) == Parent(p) \o (IF LastBit(p) = "0" THEN "1" ELSE "0")
Ancestor(p, q) == StartsWith(p, q)           \* every shard is its own
Meet(p, q) == Ancestor(p, q) \/ Ancestor(q, p)
Holds(p, account) == StartsWith(p, account)
Order(w, p, v, q) == IF w = v THEN (IF p = q THEN 0 ELSE IF LexLt(Raw(p), Raw(q)) THEN -1 ELSE 1)
                     ELSE IF BitAt(w, 1) # BitAt(v, 1) THEN (IF BitAt(w, 1) = "1" THEN -1 ELSE 1)
                     ELSE IF LexLt(w, v) THEN -1 ELSE 1
IdentBits(w, p) == Nat2Bits(Len(p), 8) \o w \o p \o Rep("0", 64 - Len(p))
IdentText(w, p) == ShowSigned(w) \o ":" \o Hex(Raw(p))

(* from bytes, path and workchain or Err; bits behind the path do not count *)
LoadIdent(b) == IF Len(b) < 104 THEN Err
                ELSE LET n == Bits2Nat(Take(b, 8)) IN
                     IF n > MaxDepth THEN Err ELSE <<SubSeq(b, 9, 40), SubSeq(b, 41, 40 + n)>>
IdentOf(ws, ps) ==
  LET w == ParseSigned(ws, 32)
      u == ParseHexNum(ps, 64)
  IN  IF w = NotNumber \/ u = NotNumber THEN Err ELSE IF ~IsIdent(w, u) THEN Err ELSE <<w, Path(u)>>
ParseIdent(s) == LET q == SplitBy(s, ":") IN IF Len(q) # 2 THEN Err ELSE IdentOf(q[1], q[2])
ParseBlockId(s) ==
  LET q == SplitBy(s, ":") IN
  IF Len(q) # 5 THEN Err
  ELSE LET id == IdentOf(q[1], q[2])
           n == ParseUnsigned(q[3], 32)
           hash(x) == IsHex(x) /\ Len(x) = 64
       IN  IF id = Err \/ n = NotNumber \/ ~hash(q[4]) \/ ~hash(q[5]) THEN Err
           ELSE <<id[1], id[2], n, Lower(q[4]), Lower(q[5])>>

(***************************************************************************)
(* Partitions.                                                             *)
(***************************************************************************)
(* a sequence of paths is a partition of what is below p *)
RECURSIVE Complete(_, _)
Complete(q, p) ==
  IF \E j \in 1..Len(q) : q[j] = p THEN Len(q) = 1
  ELSE LET a == SelectSeq(q, LAMBDA x : Ancestor(p \o "0", x))
           b == SelectSeq(q, LAMBDA x : Ancestor(p \o "1", x))
       IN  Len(p) < MaxDepth /\ a # <<>> /\ b # <<>> /\ Complete(a, p \o "0") /\ Complete(b, p \o "1")

(* A description: <<seqno, reg_mc_seqno, start_lt, end_lt, root hash, file hash, flags, next_catchain_seqno, next_validator_shard,
   min_ref_mc_seqno, gen_utime, split or merge, fees, their extra currencies, funds created, their extra currencies>> *)
AmountBits(a) == LET b == LET z == StripZ(a) IN Rep("0", (8 - (Len(z) % 8)) % 8) \o z IN Nat2Bits(Len(b) \div 8, 4) \o b
CurBits(a, x) == AmountBits(a) \o (IF x = 0 THEN "0" ELSE "1")
Opt(x) == IF x = 0 THEN <<>> ELSE <<x>>
DescrBits(d) == "1010" \o d[1] \o d[2] \o d[3] \o d[4] \o Unhex(d[5]) \o Unhex(d[6]) \o d[7] \o "000" \o d[8] \o d[9] \o d[10] \o d[11]
                \o (IF d[12] = "" THEN "0" ELSE "1" \o d[12])
IsDescr(d, bits, refs, T) == bits = DescrBits(d) /\ Len(refs) = 1
                             /\ T[refs[1]] = <<0, CurBits(d[13], d[14]) \o CurBits(d[15], d[16]), Opt(d[14]) \o Opt(d[16])>>
(* the tree of a sequence of <<path, description>> *)
RECURSIVE IsTree(_, _, _, _)
IsTree(q, p, c, T) ==
  IF q[1][1] = p THEN T[c][1] = 0 /\ BitAt(T[c][2], 1) = "0" /\ IsDescr(q[1][2], Drop(T[c][2], 1), T[c][3], T)
  ELSE /\ T[c][1] = 0 /\ T[c][2] = "1" /\ Len(T[c][3]) = 2
       /\ IsTree(SelectSeq(q, LAMBDA x : Ancestor(p \o "0", x[1])), p \o "0", T[c][3][1], T)
       /\ IsTree(SelectSeq(q, LAMBDA x : Ancestor(p \o "1", x[1])), p \o "1", T[c][3][2], T)

(***************************************************************************)
(* Reading any tree.                                                       *)
(***************************************************************************)
(* leaves in order: <<path, bits, refs>> *)
RECURSIVE Leaves(_, _, _)
Leaves(T, c, p) ==
  IF T[c][1] = 1 \/ T[c][2] = "" THEN <<Err>>
  ELSE IF BitAt(T[c][2], 1) = "0" THEN <<<<p, Drop(T[c][2], 1), T[c][3]>>>>
  ELSE IF Len(p) >= MaxDepth \/ Len(T[c][3]) < 1 THEN <<Err>>
  ELSE LET a == Leaves(T, T[c][3][1], p \o "0") IN
       IF Ends(a) THEN a ELSE IF Len(T[c][3]) < 2 THEN Append(a, Err) ELSE a \o Leaves(T, T[c][3][2], p \o "1")

Field(b, at, n) == SubSeq(b, at + 1, at + n)
(* an amount of currencies at the beginning of a slice: <<amount, extra, bits left, references left>> *)
ReadCur(b, r) ==
  IF Len(b) < 4 THEN Err
  ELSE LET n == 8 * Bits2Nat(Take(b, 4)) IN
       IF Len(b) < 5 + n THEN Err
       ELSE LET a == Widen(Field(b, 4, n), 120)
                x == BitAt(b, 5 + n) = "1"
            IN  IF x /\ r = <<>> THEN Err ELSE <<a, IF x THEN r[1] ELSE 0, Drop(b, 5 + n), IF x THEN Tail(r) ELSE r>>
ReadDescr(T, b, r) ==
  IF Len(b) < 877 \/ ~(Take(b, 4) \in {"1010", "1011"}) \/ Field(b, 714, 2) # "00" THEN Err
  ELSE LET sm == BitAt(b, 877) = "1"
           at == IF sm THEN 877 + 65 ELSE 877
           v1 == Take(b, 4) = "1010"
       IN  IF Len(b) < at \/ (v1 /\ r = <<>>) THEN Err
           ELSE IF v1 /\ T[r[1]][1] = 1 THEN Err
           ELSE LET fees == IF v1 THEN ReadCur(T[r[1]][2], T[r[1]][3]) ELSE ReadCur(Drop(b, at), r) IN
                IF fees = Err THEN Err
                ELSE LET made == ReadCur(fees[3], fees[4]) IN
                     IF made = Err THEN Err
                     ELSE <<Field(b, 4, 32), Field(b, 36, 32), Field(b, 68, 64), Field(b, 132, 64), Hex(Field(b, 196, 256)), Hex(Field(b, 452, 256)),
                            Field(b, 708, 5), Field(b, 716, 32), Field(b, 748, 64), Field(b, 812, 32), Field(b, 844, 32),
                            IF sm THEN Field(b, 877, 65) ELSE "", fees[1], fees[2], made[1], made[2]>>
=============================================================================
