-------------------------------- MODULE Abi ---------------------------------
(***************************************************************************)
(* Values of the contract ABI in cells.                                    *)
(*                                                                         *)
(* A type is <<name, parameters...>>.  A value is: of a number <<1 if      *)
(* negative, magnitude without leading zeros>>, of a flag 0 or 1, of a     *)
(* cell its place in the table, of an address its bits, of bytes and text  *)
(* their bits, of a tuple or an array the sequence of its parts, of a map  *)
(* the sequence of <<key, value>>, of an optional <<>> or <<value>>.       *)
(*                                                                         *)
(* A value is split into pieces, which go one after another to a chain of  *)
(* cells, the next being the last reference of the one before.  From 2.2   *)
(* every piece takes the room of the largest value of its type.            *)
(***************************************************************************)
EXTENDS Damage
AD == INSTANCE Addr
CE == INSTANCE Cells

V1(ver) == ver[1] = 1
Wide(ver) == ver[1] > 2 \/ (ver[1] = 2 /\ ver[2] >= 2)
Signs(ver) == ver[1] > 2 \/ (ver[1] = 2 /\ ver[2] >= 3)  \* the address is signed too

(*--------------------------------- sizes --------------------------------*)
RECURSIVE Sum2(_)
Sum2(q) == IF q = <<>> THEN <<0, 0>> ELSE LET s == Sum2(Tail(q)) IN <<Head(q)[1] + s[1], Head(q)[2] + s[2]>>
RECURSIVE MaxSize(_), Inlined(_)
MaxSize(t) ==
  LET k == t[1] IN
  CASE k \in {"uint", "int"} -> <<t[2], 0>>
    [] k \in {"varuint", "varint"} -> <<BitLen(t[2] - 1) + 8 * (t[2] - 1), 0>>
    [] k = "bool" -> <<1, 0>>
    [] k \in {"cell", "bytes", "fixedbytes", "string", "ref"} -> <<0, 1>>
    [] k = "address" -> <<591, 0>>
    [] k = "token" -> <<124, 0>>
    [] k = "array" -> <<33, 1>>
    [] k \in {"fixedarray", "map"} -> <<1, 1>>
    [] k = "optional" -> IF Inlined(t[2]) THEN LET s == MaxSize(t[2]) IN <<1 + s[1], s[2]>> ELSE <<1, 1>>
    [] k = "tuple" -> Sum2([j \in 1..Len(t[2]) |-> MaxSize(t[2][j])])
Inlined(t) == LET s == MaxSize(t) IN s[1] < 1023 /\ s[2] < 4
InLeaf(n, t) == 12 + n + MaxSize(t)[1] <= 1023
KeyBits(t) == CASE t[1] = "bool" -> 1 [] t[1] = "address" -> 267 [] OTHER -> t[2]

(*-------------------------------- numbers -------------------------------*)
FitsU(v, n) == v[1] = 0 /\ Len(v[2]) <= n
MinusOne(m) == StripZ(BSub(m, "1", Len(m)))
FitsSigned(v, n) == IF v[1] = 0 THEN Len(v[2]) < n ELSE Len(MinusOne(v[2])) < n
Twos(v, n) == IF v[1] = 0 THEN Widen(v[2], n) ELSE BNot(Widen(MinusOne(v[2]), n))
UnTwos(b) == IF b = "" \/ BitAt(b, 1) = "0" THEN <<0, StripZ(b)>> ELSE <<1, StripZ(BSub("", b, Len(b)))>>
(* how many bytes *)
Bytes(v, signed) == IF ~signed THEN Max2(1, CeilDiv(Len(v[2]), 8))
                    ELSE 1 + (Len(IF v[1] = 0 THEN v[2] ELSE MinusOne(v[2])) \div 8)

(*-------------------------------- encoding ------------------------------*)
(* a piece: its bits and references, and the room that it takes *)
P(b, r, mb, mr) == [b |-> b, r |-> r, mb |-> mb, mr |-> mr]
Exact(b, r) == P(b, r, Len(b), Len(r))
NoPiece == [b |-> "", r |-> <<>>, mb |-> 0 - 1, mr |-> 0]
IsBad(q) == \E j \in 1..Len(q) : q[j].mb < 0

IdOf(T, row) == LET S == {k \in 1..Len(T) : T[k] = row} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
Intern(T, row) == LET k == IdOf(T, row) IN IF k > 0 THEN <<T, k>> ELSE <<Append(T, row), Len(T) + 1>>

(* pieces to rows of cells, the first first; o is the room that is taken in the first cell *)
Pack(q, ver, o) ==
  LET step(s, p) ==
        LET rb == s.rb - p.mb
            rr == s.rr - p.mr
            fb == 1023 - s.cb
            fr == 4 - s.cr
            in == IF p.mb > fb \/ p.mr > fr THEN FALSE
                  ELSE IF p.mr > 0 /\ p.mr = fr THEN ~V1(ver) /\ rr = 0 /\ rb + p.mb <= fb
                  ELSE TRUE
        IN  [rb |-> rb, rr |-> rr,
             cb |-> (IF in THEN s.cb ELSE 0) + p.mb, cr |-> (IF in THEN s.cr ELSE 0) + p.mr,
             rows |-> IF in THEN [s.rows EXCEPT ![Len(s.rows)] = <<@[1] \o p.b, @[2] \o p.r>>] ELSE Append(s.rows, <<p.b, p.r>>)]
      all == Sum2([j \in 1..Len(q) |-> <<q[j].mb, q[j].mr>>])
  IN  FoldLeft(step, [rb |-> all[1], rr |-> all[2], cb |-> o[1], cr |-> o[2], rows |-> <<<<"", <<>>>>>>], q).rows
(* the first cell: <<table, bits, references, is it possible>> *)
Chain(T, rows) ==
  LET step(s, j) ==
        LET row == rows[Len(rows) - j]
            x == Intern(s[1], <<0, s[2], s[3]>>)
            r == Append(row[2], x[2])
        IN  <<x[1], row[1], r, s[4] /\ Len(row[1]) <= 1023 /\ Len(r) <= 4>>
      last == rows[Len(rows)]
  IN  FoldLeft(step, <<T, last[1], last[2], Len(last[1]) <= 1023 /\ Len(last[2]) <= 4>>, [j \in 1..(Len(rows) - 1) |-> j])
NotPossible(T) == <<T, "", <<>>, FALSE>>
Whole1(x) == IF ~x[4] THEN <<x[1], 0>> ELSE Intern(x[1], <<0, x[2], x[3]>>)

(* bytes in a chain of cells: since 2.0 all but the last are full, before that all but the first *)
Chunks(b, ver) ==
  LET n == 1016
      k == CeilDiv(Len(b), n)
      h == IF V1(ver) THEN Len(b) - n * (k - 1) ELSE n
  IN  IF b = "" THEN <<"">> ELSE [j \in 1..k |-> IF j = 1 THEN Take(b, Min2(h, Len(b)))
                                                ELSE LET x == Drop(b, h + n * (j - 2)) IN Take(x, Min2(n, Len(x)))]
InChain(T, q) == FoldLeft(LAMBDA s, j : LET x == q[Len(q) + 1 - j] IN Intern(s[1], <<0, x, IF j = 1 THEN <<>> ELSE <<s[2]>>>>), <<T, 0>>, [j \in 1..Len(q) |-> j])

(* the dictionary of entries <<rest of key, bits, references>> in the order of keys *)
RECURSIVE Build(_, _, _)
Build(T, es, n) ==
  IF Len(es) = 1 THEN Intern(T, <<0, HmLabel(es[1][1], n) \o es[1][2], es[1][3]>>)
  ELSE LET l == LcpLen(es[1][1], es[Len(es)][1])
           Side(b) == LET in == SelectSeq(es, LAMBDA e : BitAt(e[1], l + 1) = b) IN [j \in 1..Len(in) |-> <<Drop(in[j][1], l + 1), in[j][2], in[j][3]>>]
           x0 == Build(T, Side("0"), n - l - 1)
           x1 == Build(x0[1], Side("1"), n - l - 1)
       IN  Intern(x1[1], <<0, HmLabel(Take(es[1][1], l), n), <<x0[2], x1[2]>>>>)
InOrderOf(es) == SortSeq(es, LAMBDA a, b : LexLt(a[1], b[1]))

KeyOf(t, v) == CASE t[1] = "uint" -> IF FitsU(v, t[2]) THEN <<Widen(v[2], t[2])>> ELSE <<>>
                 [] t[1] = "int" -> IF FitsSigned(v, t[2]) THEN <<Twos(v, t[2])>> ELSE <<>>
                 [] t[1] = "bool" -> <<IF v = 1 THEN "1" ELSE "0">>
                 [] t[1] = "address" -> IF Len(v) = 267 THEN <<v>> ELSE <<>>

RECURSIVE Pieces(_, _, _, _), Sub(_, _, _, _), Entries1(_, _, _, _, _)
(* a value of its own: <<table, bits, references, is it possible>> *)
Sub(T, t, v, ver) == LET x == Pieces(T, t, v, ver) IN IF IsBad(x[2]) THEN NotPossible(x[1]) ELSE Chain(x[1], Pack(x[2], ver, <<0, 0>>))
(* the leaves for <<key, value>> pairs: <<table, entries, is it possible>> *)
Entries1(T, t, kv, n, ver) ==
  LET step(s, e) ==
        LET x == Sub(s[1], t, e[2], ver)
            w == Whole1(x)
        IN  IF ~s[3] \/ e[1] = <<>> \/ ~x[4] THEN <<s[1], s[2], FALSE>>
            ELSE IF InLeaf(n, t) THEN <<x[1], Append(s[2], <<e[1][1], x[2], x[3]>>), TRUE>>
            ELSE <<w[1], Append(s[2], <<e[1][1], "", <<w[2]>>>>), TRUE>>
  IN  FoldLeft(step, <<T, <<>>, TRUE>>, kv)
Dictionary(T, t, kv, n, ver) ==
  LET x == Entries1(T, t, kv, n, ver) IN
  IF ~x[3] THEN <<x[1], <<NoPiece>>>>
  ELSE LET y == IF x[2] = <<>> THEN <<x[1], 0>> ELSE Build(x[1], InOrderOf(x[2]), n) IN
       IF \E j \in (Len(x[1]) + 1)..Len(y[1]) : Len(y[1][j][2]) > 1023 THEN <<x[1], <<NoPiece>>>> ELSE
       <<y[1], <<P(IF y[2] = 0 THEN "0" ELSE "1", IF y[2] = 0 THEN <<>> ELSE <<y[2]>>, 1, IF Wide(ver) \/ y[2] # 0 THEN 1 ELSE 0)>>>>
(* <<table, pieces>> *)
Pieces(T, t, v, ver) ==
  LET k == t[1]
      One(ok, b) == <<T, IF ok THEN <<IF Wide(ver) THEN P(b, <<>>, MaxSize(t)[1], 0) ELSE Exact(b, <<>>)>> ELSE <<NoPiece>>>>
      Held(x) == <<x[1], IF x[2] = 0 THEN <<NoPiece>> ELSE <<Exact("", <<x[2]>>)>>>>
  IN
  CASE k = "uint" -> One(FitsU(v, t[2]), Widen(v[2], t[2]))
    [] k = "int" -> One(FitsSigned(v, t[2]), Twos(v, t[2]))
    [] k \in {"varuint", "varint"} ->
         LET s == k = "varint"
             n == Bytes(v, s)
         IN  One(n < t[2] /\ (v[1] = 0 \/ s), Nat2Bits(n, BitLen(t[2] - 1)) \o Twos(v, 8 * n))
    [] k = "bool" -> One(TRUE, IF v = 1 THEN "1" ELSE "0")
    [] k = "address" -> One(TRUE, v)
    [] k = "token" -> One(FitsU(v, 120), Nat2Bits(CeilDiv(Len(v[2]), 8), 4) \o Widen(v[2], 8 * CeilDiv(Len(v[2]), 8)))
    [] k = "cell" -> Held(<<T, v>>)
    [] k \in {"bytes", "fixedbytes", "string"} -> Held(InChain(T, Chunks(v, ver)))
    [] k = "ref" -> Held(Whole1(Sub(T, t[2], v, ver)))
    [] k = "tuple" -> FoldLeft(LAMBDA s, j : LET x == Pieces(s[1], t[2][j], v[j], ver) IN <<x[1], s[2] \o x[2]>>, <<T, <<>>>>, [j \in 1..Len(t[2]) |-> j])
    [] k \in {"array", "fixedarray"} ->
         LET d == Dictionary(T, t[2], [j \in 1..Len(v) |-> <<<<Nat2Bits(j - 1, 32)>>, v[j]>>], 32, ver) IN
         IF k = "fixedarray" \/ IsBad(d[2]) THEN d
         ELSE <<d[1], <<P(Nat2Bits(Len(v), 32) \o d[2][1].b, d[2][1].r, 33, d[2][1].mr)>>>>
    [] k = "map" -> Dictionary(T, t[3], [j \in 1..Len(v) |-> <<KeyOf(t[2], v[j][1]), v[j][2]>>], KeyBits(t[2]), ver)
    [] k = "optional" ->
         LET in == Inlined(t[2])
             m == MaxSize(t)
             x == Sub(T, t[2], v[1], ver)
             w == Whole1(x)
             Room(b, r) == IF Wide(ver) THEN P(b, r, m[1], m[2]) ELSE Exact(b, r)
         IN  IF v = <<>> THEN <<T, <<Room("0", <<>>)>>>>
             ELSE IF ~x[4] THEN <<x[1], <<NoPiece>>>>
             ELSE IF in THEN <<x[1], <<Room("1" \o x[2], x[3])>>>>
             ELSE <<w[1], <<Room("1", <<w[2]>>)>>>>
(* the cell of a value: <<table, cell>>, 0 if there is none *)
Encode(T, t, v, ver) == Whole1(Sub(T, t, v, ver))

(*-------------------------------- decoding ------------------------------*)
(* what is left to read: bits, references, how many references the cell has; what was read last *)
Slice(b, r) == [b |-> b, r |-> r, n |-> Len(r), ok |-> TRUE, v |-> 0]
No(s) == [s EXCEPT !.ok = FALSE]
Open(T, s, c) == IF T[c][1] = 1 THEN No(s) ELSE Slice(T[c][2], T[c][3])
AtEnd(s) == s.b = "" /\ s.r = <<>>
(* to the next cell when this one is at its end *)
Ahead(T, s, n) ==
  IF ~s.ok \/ n = 0 THEN s
  ELSE IF s.b = "" THEN IF Len(s.r) # 1 THEN No(s) ELSE Open(T, s, s.r[1])
  ELSE IF Len(s.b) < n THEN No(s) ELSE s
Got(s, n, v) == [s EXCEPT !.b = Drop(@, n), !.v = v]
Need(s, n) == IF s.ok /\ Len(s.b) < n THEN No(s) ELSE s
(* a reference *)
Ref(T, s, last, ver) ==
  LET x == IF Len(s.r) = 1 /\ (IF V1(ver) THEN s.n = 4 ELSE ~last /\ s.b = "") THEN Open(T, s, s.r[1]) ELSE s IN
  IF ~x.ok \/ x.r = <<>> THEN No(x) ELSE [x EXCEPT !.r = Tail(@), !.v = x.r[1]]

RECURSIVE BytesOf(_, _)
(* <<bits>>, or <<>> where a cell does not hold bytes *)
BytesOf(T, c) ==
  IF Len(T[c][2]) % 8 # 0 THEN <<>>
  ELSE IF T[c][3] = <<>> THEN <<T[c][2]>>
  ELSE LET x == BytesOf(T, T[c][3][1]) IN IF x = <<>> THEN <<>> ELSE <<T[c][2] \o x[1]>>

(* is it text: no byte out of place, no longer form than needed, no surrogates, nothing beyond 10FFFF *)
Utf8(b) ==
  LET n == Len(b) \div 8
      at(j) == Bits2Nat(SubSeq(b, 8 * j - 7, 8 * j))
      step(s, j) ==
        LET x == at(j) IN
        IF s[1] < 0 THEN s
        ELSE IF s[1] = 0
             THEN CASE x < 128 -> <<0, 0, 0>>
                    [] x \in 194..223 -> <<1, 128, 191>>
                    [] x = 224 -> <<2, 160, 191>>
                    [] x = 237 -> <<2, 128, 159>>
                    [] x \in 225..239 -> <<2, 128, 191>>
                    [] x = 240 -> <<3, 144, 191>>
                    [] x \in 241..243 -> <<3, 128, 191>>
                    [] x = 244 -> <<3, 128, 143>>
                    [] OTHER -> <<0 - 1, 0, 0>>
             ELSE IF x \in s[2]..s[3] THEN <<s[1] - 1, 128, 191>> ELSE <<0 - 1, 0, 0>>
  IN  FoldLeft(step, <<0, 0, 0>>, [j \in 1..n |-> j])[1] = 0

RECURSIVE Dec(_, _, _, _, _, _)
(* the value of a cell of its own, after which nothing may be left *)
Own(T, s, c, t, ver, part) ==
  LET o == Open(T, s, c)
      x == IF o.ok THEN Dec(T, o, t, TRUE, ver, part) ELSE o
  IN  IF x.ok /\ (part \/ AtEnd(x)) THEN [s EXCEPT !.v = x.v] ELSE No(s)
(* the value in a leaf *)
InLeafAt(T, e, n, t, ver, part, strict) ==
  LET s == Slice(e[1], e[2])
      o == IF V1(ver) /\ ~InLeaf(n, t) /\ s.b = "" /\ Len(s.r) = 1 THEN Open(T, s, s.r[1]) ELSE s
      x == IF o.ok THEN Dec(T, o, t, TRUE, ver, part) ELSE o
  IN  IF x.ok /\ (part \/ ~strict \/ AtEnd(x)) THEN <<x.v>> ELSE <<>>
PlainOf(t, b) == CASE t[1] = "uint" -> <<<<0, StripZ(b)>>>>
                   [] t[1] = "int" -> <<UnTwos(b)>>
                   [] t[1] = "bool" -> <<IF b = "1" THEN 1 ELSE 0>>
                   [] t[1] = "address" -> LET a == AD!LoadAddr(b) IN IF a[1].t \in {"std", "var"} THEN <<Take(b, Len(b) - Len(a[2]))>> ELSE <<>>
Root(s0) == LET s == Need(s0, 1) IN
            IF ~s.ok THEN s
            ELSE IF Take(s.b, 1) = "0" THEN Got(s, 1, 0)
            ELSE IF s.r = <<>> THEN No(s) ELSE [s EXCEPT !.b = Drop(@, 1), !.v = s.r[1], !.r = Tail(@)]
Elements(T, s0, t, n, ver, part) ==
  LET s == Root(Ahead(T, s0, 1)) IN
  IF ~s.ok THEN s
  ELSE LET I == Items(T, s.v, 32, FALSE)
           q == IF n < Len(I) THEN Take(I, n) ELSE I
           x == [j \in 1..Len(q) |-> IF q[j].gap THEN <<>> ELSE InLeafAt(T, q[j].v, 32, t, ver, part, TRUE)]
       IN  IF \E j \in 1..Len(q) : x[j] = <<>> THEN No(s) ELSE [s EXCEPT !.v = [j \in 1..Len(q) |-> x[j][1]]]
Dec(T, s0, t, last, ver, part) ==
  LET k == t[1] IN
  CASE k = "uint" -> LET s == Need(Ahead(T, s0, t[2]), t[2]) IN IF s.ok THEN Got(s, t[2], <<0, StripZ(Take(s.b, t[2]))>>) ELSE s
    [] k = "int" -> LET s == Need(Ahead(T, s0, t[2]), t[2]) IN IF s.ok THEN Got(s, t[2], UnTwos(Take(s.b, t[2]))) ELSE s
    [] k \in {"varuint", "varint"} ->
         LET l == BitLen(t[2] - 1)
             s == Need(Ahead(T, s0, l), l)
             n == IF s.ok THEN Bits2Nat(Take(s.b, l)) ELSE 0
             x == Need(Ahead(T, IF s.ok THEN Got(s, l, 0) ELSE s, 8 * n), 8 * n)
         IN  IF ~x.ok \/ n >= t[2] THEN No(x)
             ELSE Got(x, 8 * n, IF k = "varint" THEN UnTwos(Take(x.b, 8 * n)) ELSE <<0, StripZ(Take(x.b, 8 * n))>>)
    [] k = "bool" -> LET s == Need(Ahead(T, s0, 1), 1) IN IF s.ok THEN Got(s, 1, IF Take(s.b, 1) = "1" THEN 1 ELSE 0) ELSE s
    [] k = "address" -> LET s == Ahead(T, s0, 1)
                            a == AD!LoadAddr(s.b)
                            n == Len(s.b) - Len(a[2])
                        IN  IF s.ok /\ a[1].t \in {"std", "var"} THEN Got(s, n, Take(s.b, n)) ELSE No(s)
    [] k = "token" -> LET s == Need(Ahead(T, s0, 1), 4)
                          n == IF s.ok THEN 8 * Bits2Nat(Take(s.b, 4)) ELSE 0
                          x == Need(s, 4 + n)
                      IN  IF x.ok THEN Got(x, 4 + n, <<0, StripZ(SubSeq(x.b, 5, 4 + n))>>) ELSE x
    [] k = "cell" -> Ref(T, s0, last, ver)
    [] k \in {"bytes", "fixedbytes", "string"} ->
         LET s == Ref(T, s0, last, ver)
             b == IF s.ok THEN BytesOf(T, s.v) ELSE <<>>
         IN  IF b = <<>> THEN No(s)
             ELSE IF (k = "fixedbytes" /\ Len(b[1]) # 8 * t[2]) \/ (k = "string" /\ ~Utf8(b[1])) THEN No(s)
             ELSE [s EXCEPT !.v = b[1]]
    [] k = "tuple" ->
         LET step(s, j) == IF ~s[1].ok THEN s
                           ELSE LET x == Dec(T, s[1], t[2][j], last /\ j = Len(t[2]), ver, part) IN <<x, Append(s[2], x.v)>>
             r == FoldLeft(step, <<s0, <<>>>>, [j \in 1..Len(t[2]) |-> j])
         IN  [r[1] EXCEPT !.v = r[2]]
    [] k = "array" -> LET s == Need(Ahead(T, s0, 32), 32) IN
                      IF ~s.ok THEN s
                      ELSE LET w == StripZ(Take(s.b, 32)) IN Elements(T, Got(s, 32, 0), t[2], IF Len(w) > 16 THEN 65536 ELSE Bits2Nat(w), ver, part)
    [] k = "fixedarray" -> LET s == Elements(T, s0, t[2], t[3], ver, part) IN
                           IF ~s.ok \/ Len(s.v) # t[3] THEN No(s) ELSE s
    [] k = "map" ->
         LET s == Root(Ahead(T, s0, 1)) IN
         IF ~s.ok THEN s
         ELSE LET I == Items(T, s.v, KeyBits(t[2]), FALSE)
                  key(j) == IF I[j].gap THEN <<>> ELSE PlainOf(t[2], I[j].k)
                  x == [j \in 1..Len(I) |-> IF key(j) = <<>> THEN <<>> ELSE InLeafAt(T, I[j].v, KeyBits(t[2]), t[3], ver, part, FALSE)]
              IN  IF \E j \in 1..Len(I) : x[j] = <<>> THEN No(s) ELSE [s EXCEPT !.v = [j \in 1..Len(I) |-> <<key(j)[1], x[j][1]>>]]
    [] k = "optional" ->
         LET s == Need(Ahead(T, s0, 1), 1) IN
         IF ~s.ok THEN s
         ELSE IF Take(s.b, 1) = "0" THEN Got(s, 1, <<>>)
         ELSE IF Inlined(t[2]) THEN LET x == Dec(T, Got(s, 1, 0), t[2], last, ver, part) IN [x EXCEPT !.v = <<@>>]
         ELSE LET c == Ref(T, Got(s, 1, 0), last, ver)
                  x == IF c.ok THEN Own(T, c, c.v, t[2], ver, part) ELSE c
              IN  [x EXCEPT !.v = <<@>>]
    [] k = "ref" -> LET c == Ref(T, s0, last, ver) IN IF c.ok THEN Own(T, c, c.v, t[2], ver, part) ELSE c
(* all of a slice: <<value, bits left, references left>>, or <<>> *)
Decode(T, s, t, ver, part) ==
  LET x == Dec(T, s, t, TRUE, ver, part) IN IF x.ok /\ (part \/ AtEnd(x)) THEN <<x.v, Len(x.b), Len(x.r)>> ELSE <<>>
DecodeCell(T, c, t, ver, part) == IF T[c][1] = 1 THEN <<>> ELSE Decode(T, Slice(T[c][2], T[c][3]), t, ver, part)

(* the same value, with maps in the order of their keys *)
RECURSIVE Same(_, _, _)
Same(t, a, b) ==
  CASE t[1] = "tuple" -> Len(a) = Len(b) /\ \A j \in 1..Len(a) : Same(t[2][j], a[j], b[j])
    [] t[1] \in {"array", "fixedarray"} -> Len(a) = Len(b) /\ \A j \in 1..Len(a) : Same(t[2], a[j], b[j])
    [] t[1] = "optional" -> Len(a) = Len(b) /\ \A j \in 1..Len(a) : Same(t[2], a[j], b[j])
    [] t[1] = "ref" -> Same(t[2], a, b)
    [] t[1] = "map" -> /\ {a[j][1] : j \in 1..Len(a)} = {b[j][1] : j \in 1..Len(b)}
                       /\ \A x \in 1..Len(a) : \E y \in 1..Len(b) : a[x][1] = b[y][1] /\ Same(t[3], a[x][2], b[y][2])
    [] OTHER -> a = b

RECURSIVE Default(_, _)
Default(T, t) ==
  CASE t[1] \in {"uint", "int", "varuint", "varint", "token"} -> <<0, "">>
    [] t[1] = "bool" -> 0
    [] t[1] = "cell" -> IdOf(T, <<0, "", <<>>>>)
    [] t[1] = "address" -> "100" \o Rep("0", 264)
    [] t[1] \in {"bytes", "string"} -> ""
    [] t[1] = "fixedbytes" -> Rep("0", 8 * t[2])
    [] t[1] = "tuple" -> [j \in 1..Len(t[2]) |-> Default(T, t[2][j])]
    [] t[1] \in {"array", "map", "optional"} -> <<>>
    [] t[1] = "fixedarray" -> [j \in 1..t[3] |-> Default(T, t[2])]
    [] t[1] = "ref" -> Default(T, t[2])

(*------------------------------ names and ids ---------------------------*)
RECURSIVE Show(_, _), ShowAll(_)
ShowAll(q) == IF q = <<>> THEN "" ELSE Show(Head(q), FALSE) \o (IF Len(q) = 1 THEN "" ELSE "," \o ShowAll(Tail(q)))
(* brief: tuples by the word *)
Show(t, brief) ==
  LET k == t[1] IN
  CASE k \in {"uint", "int", "varuint", "varint", "fixedbytes"} -> k \o ToString(t[2])
    [] k = "token" -> "gram"
    [] k = "tuple" -> IF brief THEN "tuple" ELSE "(" \o ShowAll(t[2]) \o ")"
    [] k = "array" -> Show(t[2], brief) \o "[]"
    [] k = "fixedarray" -> Show(t[2], brief) \o "[" \o ToString(t[3]) \o "]"
    [] k = "map" -> "map(" \o Show(t[2], brief) \o "," \o Show(t[3], brief) \o ")"
    [] k \in {"optional", "ref"} -> k \o "(" \o Show(t[2], brief) \o ")"
    [] OTHER -> k
Commas(q) == FoldLeft(LAMBDA a, s : IF a = "" THEN s ELSE a \o "," \o s, "", q)
Signature(ver, name, headers, ins, outs) ==
  name \o "(" \o Commas((IF V1(ver) THEN headers ELSE <<>>) \o [j \in 1..Len(ins) |-> Show(ins[j], FALSE)]) \o ")(" \o ShowAll(outs) \o ")v" \o ToString(ver[1])
EventSignature(ver, name, ins) == name \o "(" \o ShowAll(ins) \o ")v" \o ToString(ver[1])
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz"
TextHex(s) == FoldLeft(LAMBDA a, j : a \o Hex(Nat2Bits(31 + FirstIdx(Printable, BitAt(s, j)), 8)), "", [j \in 1..Len(s) |-> j])
IdBits(sig) == Take(Unhex(Sha256(TextHex(sig))), 32)
InputId(sig) == "0" \o Drop(IdBits(sig), 1)
OutputId(sig) == "1" \o Drop(IdBits(sig), 1)

(*--------------------------------- calls --------------------------------*)
HeaderPiece(h, a, ver) ==
  CASE h = "time" -> Exact(a.time, <<>>)
    [] h = "expire" -> Exact(a.expire, <<>>)
    [] h = "pubkey" -> LET b == IF a.pubkey = "" THEN "0" ELSE "1" \o a.pubkey IN IF Wide(ver) THEN P(b, <<>>, 257, 0) ELSE Exact(b, <<>>)
Internal(T, id, ins, vals, ver) ==
  LET x == Pieces(T, <<"tuple", ins>>, vals, ver) IN
  IF IsBad(x[2]) THEN NotPossible(T) ELSE Chain(x[1], Pack(<<Exact(id, <<>>)>> \o x[2], ver, <<0, 0>>))
(* what is signed, before there is a signature; of version 1 the id comes first *)
Payload1(T, id, ins, vals, ver, headers, a, first, o) ==
  LET x == Pieces(T, <<"tuple", ins>>, vals, ver)
      h == [j \in 1..Len(headers) |-> HeaderPiece(headers[j], a, ver)]
      i == <<Exact(id, <<>>)>>
  IN  IF IsBad(x[2]) THEN NotPossible(T)
      ELSE Chain(x[1], Pack(first \o (IF V1(ver) THEN i \o h ELSE h \o i) \o x[2], ver, o))
Room(ver) == IF V1(ver) THEN <<0, 1>> ELSE IF Signs(ver) THEN <<591, 0>> ELSE <<513, 0>>
(* without a signature *)
Unsigned(T, id, ins, vals, ver, headers, a) ==
  LET x == Intern(T, <<0, "", <<>>>>) IN
  IF V1(ver) THEN Payload1(x[1], id, ins, vals, ver, headers, a, <<Exact("", <<x[2]>>)>>, <<0, 0>>)
  ELSE Payload1(T, id, ins, vals, ver, headers, a, <<Exact("0", <<>>)>>, Room(ver))
(* with a signature in place: sig is its bits, "" for none *)
Filled(x, sig, ver) ==
  IF ~x[4] THEN x
  ELSE IF V1(ver) THEN LET s == Intern(x[1], <<0, sig, <<>>>>) IN <<s[1], x[2], <<s[2]>> \o x[3], Len(x[3]) <= 3>>
  ELSE LET b == (IF sig = "" THEN "0" ELSE "1" \o sig) \o x[2] IN <<x[1], b, x[3], Len(b) <= 1023>>

RECURSIVE CellOf(_, _)
CellOf(T, c) == TLCEval(CE!Make(T[c][1], T[c][2], T[c][3], TLCEval([j \in 1..Len(T[c][3]) |-> CellOf(T, T[c][3][j])])))
HashOf(T, b, r) == CE!Make(0, b, r, TLCEval([j \in 1..Len(r) |-> CellOf(T, r[j])])).h[3]
ToSign(x, addr, ver) == HashOf(x[1], IF Signs(ver) THEN addr \o x[2] ELSE x[2], x[3])

(*----------------------------- reading of calls --------------------------*)
(* exactly n bits of what is here *)
Here(s, n) == LET x == Need(s, n) IN IF x.ok THEN Got(x, n, Take(x.b, n)) ELSE x
Thing(s) == IF s.r = <<>> THEN No(s) ELSE [s EXCEPT !.r = Tail(@), !.v = s.r[1]]
SkipHeader(T, s, h) ==
  LET Pass(x, n) == IF x.ok THEN Here(Ahead(T, x, n), n) ELSE x IN
  CASE h = "time" -> Pass(s, 64)
    [] h = "expire" -> Pass(s, 32)
    [] h = "pubkey" -> LET x == Pass(s, 1) IN IF x.ok /\ x.v = "1" THEN Pass(x, 256) ELSE x
SkipHeaders(T, s, hs) == FoldLeft(LAMBDA x, h : SkipHeader(T, x, h), s, hs)
(* after this the last read is the id *)
External(T, s, hs, ver) ==
  IF V1(ver)
  THEN LET i == Here(s, 32)
           g == IF i.ok THEN Thing(i) ELSE i
           x == IF g.ok THEN SkipHeaders(T, g, hs) ELSE g
       IN  [x EXCEPT !.v = i.v]
  ELSE LET f == Here(s, 1)
           g == IF f.ok /\ f.v = "1" THEN Here(f, 512) ELSE f
           x == IF g.ok THEN SkipHeaders(T, g, hs) ELSE g
       IN  IF x.ok THEN Here(x, 32) ELSE x
Call(T, c, how, id, hs, ins, ver, part) ==
  LET s == Slice(T[c][2], T[c][3])
      x == IF how = "external" THEN External(T, s, hs, ver) ELSE Here(s, 32)
  IN  IF T[c][1] = 1 \/ ~x.ok THEN <<>>
      ELSE IF x.v # id THEN <<>>
      ELSE Decode(T, x, <<"tuple", ins>>, ver, part)

(*------------------------------ initial data -----------------------------*)
(* entries <<key, bits, references>> with those of e in place *)
Over(q, e) == SelectSeq(q, LAMBDA x : \A j \in 1..Len(e) : e[j][1] # x[1]) \o e
NoInit(T) == <<T, 0>>
(* data is a sequence of <<name, key, type>>, vals of <<name, value, ..>> *)
InitEntries(T, data, vals, ver) ==
  LET step(s, e) ==
        LET S == {j \in 1..Len(data) : data[j][1] = e[1]}
            d == data[CHOOSE j \in S : TRUE]
            x == Sub(s[1], d[3], e[2], ver)
        IN  IF ~s[3] \/ S = {} THEN <<s[1], s[2], FALSE>>
            ELSE <<x[1], Append(s[2], <<d[2], x[2], x[3]>>), x[4]>>
  IN  FoldLeft(step, <<T, <<>>, TRUE>>, vals)
Stored1(x, es) == IF ~x[3] THEN NoInit(x[1])
                  ELSE LET d == Build(x[1], InOrderOf(es), 64) IN Intern(d[1], <<0, "1", <<d[2]>>>>)
KeyEntry(k) == <<Rep("0", 64), k, <<>>>>
InitData(T, data, vals, key, ver) ==
  LET x == InitEntries(T, data, vals, ver)
      given == {vals[j][1] : j \in 1..Len(vals)}
      rest == SelectSeq(data, LAMBDA d : d[1] \notin given)
      y == InitEntries(x[1], data, [j \in 1..Len(rest) |-> <<rest[j][1], Default(T, rest[j][3]), 0>>], ver)
  IN  IF ~x[3] THEN NoInit(x[1]) ELSE Stored1(y, Over(x[2] \o y[2], <<KeyEntry(key)>>))
Update(T, data, vals, key, ver, old) ==
  LET x == InitEntries(T, data, vals, ver)
      I == Items(T, T[old][3][1], 64, FALSE)
      q == Over([j \in 1..Len(I) |-> <<I[j].k, I[j].v[1], I[j].v[2]>>], x[2])
  IN  IF vals = <<>> /\ key = "" THEN <<T, old>>
      ELSE Stored1(x, IF key = "" THEN q ELSE Over(q, <<KeyEntry(key)>>))
(* the values in the order of data, or "no" *)
InitValues(T, data, c, ver) ==
  LET s == Root(Slice(T[c][2], T[c][3]))
      I == IF s.ok THEN Items(T, s.v, 64, FALSE) ELSE <<>>
      at(k) == {j \in 1..Len(I) : ~I[j].gap /\ I[j].k = k}
      v(d) == IF at(d[2]) = {} THEN <<>>
              ELSE LET e == I[CHOOSE j \in at(d[2]) : TRUE].v IN Decode(T, Slice(e[1], e[2]), d[3], ver, FALSE)
      q == [j \in 1..Len(data) |-> v(data[j])]
  IN  IF T[c][1] = 1 \/ ~s.ok \/ \E j \in 1..Len(q) : q[j] = <<>> THEN <<>>
      ELSE <<[j \in 1..Len(q) |-> q[j][1]]>>
=============================================================================
