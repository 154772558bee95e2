------------------------------- MODULE Bitio_MC -------------------------------
(***************************************************************************)
(* A builder as bytes that bits are or-ed into, next to the bit string it  *)
(* stands for, and a slice as a window, next to the strings it stands for. *)
(* TLC explores both to exhaustion within the bounds and compares the two  *)
(* views.  For every window and two builders of every length it prints a history for the harness:    *)
(* how to get there, and every operation with every width and alignment.   *)
(***************************************************************************)
EXTENDS Bitio, Json, SequencesExt, FiniteSets

CONSTANTS Mode, MaxLen, Chunks
VARIABLES str, bytes, win, fill

vars == <<str, bytes, win, fill>>

(*------------------------------- builder --------------------------------*)
NB == (MaxLen + 8) \div 8
Byte(s) == Bits2Nat(s \o Rep("0", 8 - Len(s)))
BytesOf(s) == [i \in 1..NB |-> Byte(SubSeq(s, 8 * (i - 1) + 1, Min2(Len(s), 8 * i)))]
(* or bit c into byte n/8 at n%8 *)
OrBit(bs, n, c) == IF c = "0" THEN bs ELSE [bs EXCEPT ![n \div 8 + 1] = @ + 2^(7 - (n % 8))]
RECURSIVE OrAll(_, _, _)
OrAll(bs, n, v) == IF v = "" THEN bs ELSE OrAll(OrBit(bs, n, BitAt(v, 1)), n + 1, Drop(v, 1))
(* cut to n bits: mask the byte n falls in, clear the rest *)
CutTo(bs, n) == [i \in 1..NB |-> IF 8 * i <= n THEN bs[i]
                                ELSE IF 8 * (i - 1) >= n THEN 0
                                ELSE LET k == 2^(8 - (n % 8)) IN (bs[i] \div k) * k]
BInit == str = "" /\ bytes = [i \in 1..NB |-> 0]
AddBits == \E v \in Chunks : /\ Len(str) + Len(v) <= MaxLen
                            /\ str' = str \o v
                            /\ bytes' = OrAll(bytes, Len(str), v)
Rewind == \E n \in 1..Len(str) : str' = Take(str, Len(str) - n) /\ bytes' = CutTo(bytes, Len(str) - n)
BytesAgree == Mode = "slice" \/ bytes = BytesOf(str)

(*-------------------------------- slice ---------------------------------*)
(* cell 3 of a table: these bits and both leaves; cell 4 shares a part of them *)
TT == <<<<0, "1", <<>>>>, <<1, "00000010" \o Rep("01", 128), <<>>>>,
        <<0, "01100000111110001010", <<1, 2>>>>, <<0, "0000110000011111000111", <<2, 1>>>>>>
SNext == \E n \in 0..3, r \in 0..1 :
            /\ Has(win, n, r)
            /\ n + r > 0
            /\ win' \in {SkipFirst(win, n, r), SkipLast(win, n, r)}
Windows ==
  Mode = "build" \/
  \A n \in 0..SLen(win), r \in 0..SRef(win) :
     /\ SBits(TT, OnlyFirst(win, n, r)) \o SBits(TT, SkipFirst(win, n, r)) = SBits(TT, win)
     /\ SBits(TT, SkipLast(win, n, r)) \o SBits(TT, OnlyLast(win, n, r)) = SBits(TT, win)
     /\ SRefs(TT, OnlyFirst(win, n, r)) \o SRefs(TT, SkipFirst(win, n, r)) = SRefs(TT, win)
     /\ Prefix(win, n + 100, r + 100) = win
     /\ Len(SBits(TT, win)) = SLen(win)
Scans ==
  Mode = "build" \/
  LET v == SBits(TT, win) IN
  /\ \A c \in {"0", "1"} : /\ Take(v, Leading(v, c)) = Rep(c, Leading(v, c))
                           /\ Leading(v, c) < Len(v) => BitAt(v, Leading(v, c) + 1) # c
                           /\ Drop(v, Len(v) - Trailing(v, c)) = Rep(c, Trailing(v, c))
                           /\ Trailing(v, c) < Len(v) => BitAt(v, Len(v) - Trailing(v, c)) # c
  /\ Unhex_(Hex(IF Len(v) % 4 = 0 THEN v ELSE PadTo(v \o "1", 4)), Len(v) % 4 # 0) = v
(* two's complement both ways *)
Numbers ==
  Mode = "build" \/
  \A n \in 1..Min2(9, SLen(win)) :
     LET v == Take(SBits(TT, win), n) x == SInt(v) IN
     /\ BitSize(x, TRUE) <= n /\ IBits(x, n) = v
     /\ (x[2] # "" => BitSize(x, TRUE) >= 1) /\ IBits(x, n + 3) = Rep(BitAt(v, 1), 3) \o v

Init == /\ BInit
        /\ win = IF Mode = "slice" THEN Full(TT, 3) ELSE NewS
        /\ fill \in IF Mode = "build" THEN {0, 995} ELSE {0}
Next == /\ IF Mode = "build" THEN (AddBits \/ Rewind) /\ win' = win ELSE SNext /\ str' = str /\ bytes' = bytes
        /\ fill' = fill

(************************ histories for the harness ************************)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
B2 == BOOLEAN
P64 == "1011001110001111000011111000001111110000001111111000000011111110"
(* every operation is done on a copy, and followed by one that shows stray bits *)
After(op) == <<[op |-> "copyb", b |-> 1, b2 |-> 0], op, [op |-> "store", b |-> 1, v |-> "01000001"], [op |-> "rewind", b |-> 1, n |-> 11]>>
BuildOps ==
  LET uints == [op : {"uint"}, b : {1}, v : {P64, Rep("1", 64)}, n : {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 56, 57, 63, 64, 65, 70}]
      smalls == [op : {"small"}, b : {1}, v : {"10110011", "11111111"}, n : 0..17]
      raws == [op : {"raw", "prepend"}, b : {1}, v : {Take(P64, 24), Rep("1", 24)}, n : {0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 30}]
      fixed == [op : {"store"}, b : {1}, v : {"0", "1", Take(P64, 8), Take(P64, 16), Take(P64, 32), P64, P64 \o P64}, alt : B2]
      runs == [op : {"zeros", "ones"}, b : {1}, n : {0, 1, 2, 7, 8, 9, 16, 17, 28, 29, 30}]
      rew == {[op |-> "rewind", b |-> 1, n |-> n] : n \in {0, 1, 2, 5, 7, 8, 9, 10, 15, 16, 17, 25, 26}}
  IN  Flat([j \in 1..Cardinality(uints \cup smalls) |-> After(SetToSeq(uints \cup smalls)[j])])
      \o Flat([j \in 1..Cardinality(raws) |-> After(SetToSeq(raws)[j])])
      \o Flat([j \in 1..Cardinality(fixed) |-> After(SetToSeq(fixed)[j])])
      \o Flat([j \in 1..Cardinality(runs \cup rew) |-> After(SetToSeq(runs \cup rew)[j])])
      \o After([op |-> "builder", b |-> 1, b2 |-> 0, alt |-> FALSE])
      \o <<[op |-> "bshow", b |-> 0], [op |-> "build", b |-> 0, s |-> 0], [op |-> "content", s |-> 0], [op |-> "beq", b |-> 0, b2 |-> 1]>>
      \o Flat([j \in 1..12 |-> <<[op |-> "capacity", b |-> 0, n |-> j + 11, rn |-> j % 6]>>])
BuildPath == <<[op |-> "newb", b |-> 0]>>
  \o (IF fill = 0 THEN <<>> ELSE <<[op |-> "ones", b |-> 0, n |-> fill]>>)
  \o [j \in 1..Len(str) |-> [op |-> "store", b |-> 0, v |-> BitAt(str, j), alt |-> FALSE]]
SlicePath == <<[op |-> "mk", s |-> 0, c |-> 3, allow |-> TRUE, alt |-> FALSE],
               [op |-> "onlyfirst", s |-> 0, n |-> win.e, rn |-> win.re],
               [op |-> "skipfirst", s |-> 0, n |-> win.s, rn |-> win.rs],
               [op |-> "content", s |-> 0], [op |-> "refs", s |-> 0], [op |-> "scan", s |-> 0]>>
Cps == [op |-> "copys", s |-> 1, s2 |-> 0]
OnCopy(S) == LET s == SetToSeq(S) IN [j \in 1..(2 * Len(s)) |-> IF j % 2 = 1 THEN Cps ELSE s[j \div 2]]
SliceOps ==
  SetToSeq([op : {"read"}, s : {0}, n : {1, 8, 16}, o : 0..(SLen(win) + 1), ld : {FALSE}]
           \cup [op : {"rsmall"}, s : {0}, n : 0..9, o : 0..(SLen(win) + 1), ld : {FALSE}]
           \cup [op : {"ruint"}, s : {0}, n : {0, 1, 3, 7, 8, 9, 11, 13, 16, 17}, o : 0..(SLen(win) + 1), ld : {FALSE}]
           \cup [op : {"rraw"}, s : {0}, n : {0, 1, 3, 7, 8, 9, 11, 13, 16, 17}, o : 0..(SLen(win) + 1), ld : {FALSE}, buf : {3}])
  \o OnCopy([op : {"rsmall", "ruint"}, s : {1}, n : 0..8, ld : {TRUE}]
            \cup [op : {"rraw"}, s : {1}, n : {0, 1, 5, 8, 9, 17}, ld : {TRUE}, buf : {1, 3}]
            \cup [op : {"read"}, s : {1}, n : {1, 8, 16}, ld : {TRUE}]
            \cup [op : {"rbig"}, s : {1}, n : {0, 1, 2, 7, 9, 16}, signed : B2, alt : {FALSE}]
            \cup [op : {"rvarbig"}, s : {1}, n : {0, 1, 2, 3}, signed : B2, alt : {FALSE}]
            \cup [op : {"rref"}, s : {1}, s2 : {2}, n : {0, 1, 2}, ld : B2, slice : B2, alt : B2]
            \cup [op : {"skipfirst", "skiplast", "onlyfirst", "onlylast", "getprefix"}, s : {1}, n : {0, 1, 5, 9, 19, 21}, rn : {0, 1, 2}]
            \cup [op : {"prefix", "suffix"}, s : {1}, s2 : {2}, n : {0, 3, 9, 19}, rn : {0, 1}, alt : B2])
  \o Flat([j \in 1..16 |-> <<[op |-> "mk", s |-> 1, c |-> 4, allow |-> TRUE, alt |-> FALSE],
                             [op |-> "skipfirst", s |-> 1, n |-> j, rn |-> 0],
                             [op |-> "pair", s |-> 0, s2 |-> 1], [op |-> "pair", s |-> 1, s2 |-> 0],
                             [op |-> "getprefix", s |-> 1, n |-> SLen(win), rn |-> 2],
                             [op |-> "pair", s |-> 0, s2 |-> 1]>>])
  \o <<[op |-> "info", s |-> 0, n |-> SLen(win), rn |-> SRef(win)], [op |-> "norefs", s |-> 0]>>
Sample == \/ Mode = "slice"
          \/ str \in {Take(Rep("1", 30), Len(str)), Take("0101101110111100010000", Len(str))}
Gen == ~Sample \/ PrintT("GEN " \o ToJson([cfg |-> [cells |-> TT],
          ev |-> IF Mode = "build" THEN BuildPath \o BuildOps ELSE SlicePath \o SliceOps]))
Some == {"0", "1", "0110", "00000", "111010011"}
=============================================================================
