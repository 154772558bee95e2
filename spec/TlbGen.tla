------------------------------- MODULE TlbGen -------------------------------
(***************************************************************************)
(* Values of a type and their encodings, made from its term by             *)
(* pseudo-random choices.                                                  *)
(***************************************************************************)
EXTENDS Tlb

(* the cells that values refer to *)
Base == << <<0, "", <<>>>>, <<0, "1011", <<1>>>>, <<0, "01", <<>>>>,
           <<1, "0000000100000001" \o Rep("10", 128) \o Zero(16), <<>>>>, <<1, "00000010" \o Rep("1", 256), <<>>>> >>

(* h: [T, b, r, v, s, forms, plain, fit]: a table, what is written so far, its parts, the state of the choices *)
Step(s) == (s * 32719 + 3) % 65521
Pick(h, n) == (h.s \div 13) % n
Turn(h) == [h EXCEPT !.s = Step(@)]
Rand(s, n) == LET R == FoldLeft(LAMBDA a, j : <<Step(a[1]), a[2] \o Nat2Bits(a[1] % 4096, 12)>>, <<s, "">>, [j \in 1..CeilDiv(n, 12) |-> j]) IN Take(R[2], n)
Bits4(h, n) == IF n = 0 THEN ""
               ELSE CASE Pick(h, 6) = 0 -> Zero(n)
                 [] Pick(h, 6) = 1 -> Rep("1", n)
                 [] Pick(h, 6) = 2 -> Zero(n - 1) \o "1"
                 [] OTHER -> Rand(h.s, n)
Say(h, parts, b) == [Turn(h) EXCEPT !.b = @ \o b, !.v = @ \o parts]
Intern(T, r) == LET k == IdOf(T, r) IN IF k > 0 THEN <<T, k>> ELSE <<Append(T, r), Len(T) + 1>>
Refer(h, parts, k) == [Turn(h) EXCEPT !.r = Append(@, k), !.v = @ \o parts]
Open(h) == [h EXCEPT !.b = "", !.r = <<>>]
Close(h, out) == LET x == Intern(h.T, <<0, h.b, h.r>>) IN
                 [h EXCEPT !.T = x[1], !.b = out.b, !.r = Append(out.r, x[2]), !.fit = @ /\ Small(h)]
SomeNumber(h, t) ==
  LET nt == Types[t]
      most == CASE Pick(h, 4) = 0 -> 0 [] Pick(h, 4) = 1 -> 7 [] Pick(h, 4) = 2 -> 33 [] OTHER -> 120
      v == IF t = "split" THEN Nat2Bits(1 + Pick(h, 30), 5) ELSE StripZ(Bits4(h, IF nt.var THEN Min2(nt.bits, most) ELSE nt.bits))
  IN  Say(h, <<Kept(t, StripZ(v))>>, Stored(t, v))
Tell(h, a) == Say(h, <<a.t, a.any, a.wc, a.v>>, AddrBits(a))
SomeAddr(h, how) ==
  LET k == Pick(h, 3)
      x == Turn(h)
      any == IF Pick(x, 3) = 0 THEN "-" ELSE Rand(x.s, 1 + Pick(Turn(x), 30))
      y == Turn(Turn(x))
      n == (h.s * 3) % 512
  IN  CASE how = "optext" -> Tell(h, IF k = 0 THEN NoAddr ELSE Ext(Rand(h.s, IF k = 1 THEN 8 ELSE n % 200)))
        [] how = "optint" /\ k = 0 -> Tell(h, NoAddr)
        [] k = 2 -> Tell(y, Var(any, Bits4(h, 32), Rand(h.s, n % 150)))
        [] OTHER -> Tell(y, Std(any, Bits4(h, 8), Rand(h.s, 256)))
SomeShard(h) ==
  LET n == Pick(h, 61)
      wc == Bits4(Turn(h), 32)
      p == Rand(h.s, n)
      odd == Pick(Turn(h), 8) = 0 /\ n < 60
  IN  [Say(h, <<wc, p \o "1" \o Zero(63 - n)>>, Nat2Bits(n, 8) \o wc \o p \o (IF odd THEN Rep("1", 64 - n) ELSE Zero(64 - n))) EXCEPT !.plain = @ /\ ~odd]
(* prices, in the new or the old form, after flat ones *)
SomeGas(h) ==
  LET f == FoldLeft(LAMBDA a, j : <<Turn(a[1]), Append(a[2], Bits4(a[1], 64))>>, <<Turn(h), <<>>>>, [j \in 1..9 |-> j])[2]
      flat == Pick(h, 3) > 0
      new == Pick(Turn(h), 2) = 0
      parts == <<IF flat THEN f[8] ELSE Zero(64), IF flat THEN f[9] ELSE Zero(64), f[1], f[2], IF new THEN f[3] ELSE Zero(64), f[4], f[5], f[6], f[7]>>
      bits == f[1] \o f[2] \o (IF new THEN f[3] ELSE "") \o f[4] \o f[5] \o f[6] \o f[7]
  IN  [Say(h, parts, (IF flat THEN Unhex("d1") \o f[8] \o f[9] ELSE "") \o (IF new THEN Unhex("de") ELSE Unhex("dd")) \o bits) EXCEPT !.plain = @ /\ flat /\ new]

RECURSIVE Some(_, _, _)
(* a dictionary root of one or two entries, here: what is below a fork is left alone *)
SomeRoot(h, t) ==
  LET key == Rand(h.s, t.n)
      one == Pick(h, 2) = 0
      lbl == IF one THEN key ELSE Take(key, Pick(h, t.n))
      start == [Open(Turn(h)) EXCEPT !.b = DI!HmLabel(lbl, t.n), !.r = IF one THEN <<>> ELSE <<1, 2>>, !.v = <<>>]
      ext == Some(start, t.ext, 0)
      end == IF one THEN Some(ext, t.val, 0) ELSE ext
      x == Intern(end.T, <<0, end.b, end.r>>)
  IN  [end EXCEPT !.T = x[1], !.b = h.b \o @, !.r = h.r \o @, !.v = Append(h.v, Leaf(x[2])) \o ext.v]
(* one to three members of a set, and what comes before them *)
SomeSet(h) ==
  LET two == Pick(h, 2) = 0
      total == 1 + Pick(Turn(h), 3)
      said == IF Pick(Turn(Turn(h)), 8) = 0 THEN total + 1 ELSE total
      main == 1 + Pick(Turn(Turn(h)), total)
      Member(a, j) == LET w == "00" \o Bits4(Turn(a.h), 62)
                          k == Pick(a.h, 3)
                          key == Rand(a.h.s, 256)
                          adnl == IF k = 0 THEN "" ELSE Rand(Step(a.h.s), 256)
                          since == IF k = 2 THEN Bits4(Turn(Turn(a.h)), 32) ELSE ""
                          b == (CASE k = 0 -> Unhex("53") [] k = 1 -> Unhex("73") [] OTHER -> Unhex("93")) \o Unhex("8e81278a") \o key \o w \o adnl \o since
                      IN  [h |-> Turn(Turn(Turn(a.h))), b |-> Append(a.b, b), sum |-> BAdd(a.sum, w, 64),
                           p |-> a.p /\ (since = "" \/ ~Zeros(since)), v |-> a.v \o <<key, w>> \o (IF k = 0 THEN <<"0">> ELSE <<"1", adnl>>) \o <<IF k = 2 THEN since ELSE Zero(32)>>]
      ms == FoldLeft(Member, [h |-> Turn(h), b |-> <<>>, sum |-> Zero(64), v |-> <<>>, p |-> TRUE], [j \in 1..total |-> j])
      Node(T, lbl, n, b, kids) == Intern(T, <<0, DI!HmLabel(lbl, n) \o b, kids>>)
      \* keys 00, 01, 10
      R == IF total = 1 THEN Node(h.T, Zero(16), 16, ms.b[1], <<>>)
           ELSE LET x == Node(h.T, "", 0, ms.b[1], <<>>)
                    y == Node(x[1], "", 0, ms.b[2], <<>>)
                IN  IF total = 2 THEN Node(y[1], Zero(15), 16, "", <<x[2], y[2]>>)
                    ELSE LET z == Node(y[1], "", 1, "", <<x[2], y[2]>>)
                             u == Node(z[1], "0", 1, ms.b[3], <<>>)
                         IN  Node(u[1], Zero(14), 16, "", <<z[2], u[2]>>)
      root == R[1][R[2]]
      f == <<Bits4(h, 32), Bits4(Turn(h), 32), Nat2Bits(said, 16), Nat2Bits(main, 16)>>
      front == f[1] \o f[2] \o f[3] \o f[4]
      out == IF two THEN [Say(ms.h, f \o <<ms.sum>> \o ms.v, Unhex("12") \o front \o ms.sum \o "1") EXCEPT !.T = R[1], !.r = Append(@, R[2])]
             ELSE [Say(ms.h, f \o <<ms.sum>> \o ms.v, Unhex("11") \o front \o root[2]) EXCEPT !.T = R[1], !.r = @ \o root[3]]
  IN  [out EXCEPT !.plain = @ /\ two /\ ms.p, !.good = @ /\ said = total]

(* o: how many parts come before those of the type *)
Some(h, t, o) ==
  CASE
     t.k = "q" -> FoldLeft(LAMBDA a, n : Some(a, n, o), h, t.s)
  [] t.k = "u" -> LET b == Bits4(h, t.n) IN Say(h, <<b>>, b)
  [] t.k = "wide" -> LET b == Bits4(h, t.n) IN Say(h, <<Widen(b, t.w)>>, b)
  [] t.k = "c" -> [h EXCEPT !.b = @ \o t.b]
  [] t.k = "skip" -> LET b == Bits4(h, 1) IN [Say(h, <<>>, b) EXCEPT !.plain = @ /\ b = "0"]
  [] t.k = "ty" -> IF t.t = "ValidatorSet" THEN SomeSet(h) ELSE Some(h, Schema[t.t], Len(h.v))
  [] t.k = "alt" -> LET a == t.s[1 + Pick(h, Len(t.s))] IN Some(Say(h, <<"=" \o a[2]>>, a[1]), a[3], o)
  [] t.k = "ver" -> LET j == 1 + Pick(h, Len(t.s)) IN
                    Some([Say(h, <<>>, t.s[j][1]) EXCEPT !.forms = Append(@, <<t.t, Len(h.v), j>>)], t.s[j][2], o)
  [] t.k = "opt" -> IF Pick(h, 2) = 0 THEN Say(h, <<"0">>, "0") ELSE Some(Say(h, <<"1">>, "1"), t.n, o)
  [] t.k = "ref" -> Close(Some(Open(h), t.n, o), h)
  [] t.k = "cell" -> LET k == IF t.exo = "no" THEN 1 + Pick(h, 3) ELSE IF t.exo = "yes" THEN 4 + Pick(h, 2) ELSE 1 + Pick(h, 5) IN Refer(h, <<Leaf(k)>>, k)
  [] t.k = "dict" -> IF Pick(h, 3) > 0 THEN Say(h, <<"-">>, "0")
                     ELSE LET k == 1 + Pick(Turn(h), 3) IN Refer(Say(h, <<>>, "1"), <<Leaf(k)>>, k)
  [] t.k = "num" -> SomeNumber(h, t.t)
  [] t.k = "addr" -> SomeAddr(h, t.how)
  [] t.k = "shard" -> SomeShard(h)
  [] t.k = "gas" -> SomeGas(h)
  [] t.k = "root" -> SomeRoot(h, t)
  [] t.k = "if" -> Some(h, IF BitAt(h.v[o + t.at], t.j) = "1" THEN t.n ELSE t.e, o)
  [] t.k = "is" -> [h EXCEPT !.v = @ \o t.v]
  [] t.k = "chk" -> [h EXCEPT !.good = @ /\ Holds(t.p, h.v, o)]
Start(seed) == [T |-> Base, b |-> "", r |-> <<>>, v |-> <<>>, s |-> (seed * 977 + 101) % 65521, forms |-> <<>>, plain |-> TRUE, good |-> TRUE, fit |-> TRUE]
=============================================================================
