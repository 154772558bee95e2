---------------------------- MODULE Shards_Trace -----------------------------
EXTENDS Shards, TraceRun

\* the root of what was built last
SInit(tr) == 0
Good(s) == <<s, "">>
Want(s, ev, exp) == IF ev.r = exp THEN Good(s) ELSE <<s, "expected " \o ToString(exp)>>
WantErr(s, ev) == IF ev.r[1] = "err" THEN Good(s) ELSE <<s, "expected an error">>
Answer(s, ev, x) == IF x = Err THEN WantErr(s, ev) ELSE Want(s, ev, <<"ok">> \o x)

Id(w, p) == <<w, Raw(p)>>
Of(w, p) == <<w, Raw(p), IdentText(w, p), IdentBits(w, p)>>

(* everything one can ask about two shards, an account and its workchain *)
Ask(w, p, v, q, acc, aw) ==
  <<Len(p), p = "", LastBit(p) # "1", LastBit(p) = "1", w = Master, Len(p) < MaxDepth,
    IF p = "" THEN <<>> ELSE Id(w, Parent(p)),
    IF Len(p) < MaxDepth THEN Id(w, p \o "0") \o Id(w, p \o "1") ELSE <<>>,
    IF p = "" THEN <<>> ELSE Id(w, Other(p)),
    w = v /\ Ancestor(p, q), w = v /\ q # "" /\ p = Parent(q), w = v /\ p # "" /\ q = Parent(p), w = v /\ Meet(p, q),
    Holds(p, acc), aw = w /\ Holds(p, acc),
    Order(w, p, v, q), w = v /\ p = q>>

(* groups by workchain *)
Groups(list) == {list[j][1] : j \in 1..Len(list)}
Group(list, w) == SelectSeq(list, LAMBDA x : x[1] = w)
PathsOf(list) == [j \in 1..Len(list) |-> Path(list[j][2])]
Build(tr, s, ev) ==
  LET T == tr.cells
      gs == Groups(ev.list)
  IN  IF \E w \in gs : ~Complete(PathsOf(Group(ev.list, w)), "") THEN WantErr(s, ev)
      ELSE IF ev.r[1] # "ok" THEN <<s, "expected a table">>
      ELSE LET es == Entries(T, ev.r[2], 32) IN
           IF Ends(es) \/ {es[j][1] : j \in 1..Len(es)} # gs \/ \E j \in 1..Len(es) : es[j][2] # "" \/ Len(es[j][3]) # 1
           THEN <<s, "not a dictionary of the workchains">>
           ELSE LET m == [w \in gs |-> LET j == CHOOSE k \in 1..Len(es) : es[k][1] = w IN <<es[j][2], es[j][3]>>] IN
                IF \E w \in gs : ~IsTree([j \in 1..Len(Group(ev.list, w)) |-> LET x == Group(ev.list, w)[j] IN <<Path(x[2]), ev.ds[x[3]]>>], "", m[w][2][1], T)
                THEN <<s, "not the tree of the shards">>
                ELSE Good(ev.r[2])

(* lists of leaves, with the workchain *)
With(w, q) == [j \in 1..Len(q) |-> IF q[j] = Err THEN Err ELSE <<w, Raw(q[j][1]), q[j][2], q[j][3]>>]
Cut(q) == LET k == {j \in 1..Len(q) : q[j] = Err} IN IF k = {} THEN q ELSE Take(q, CHOOSE j \in k : \A l \in k : j <= l)
TreeRaw(T, w, c) == With(w, Leaves(T, c, ""))
AllRaw(T, root) ==
  LET es == Entries(T, root, 32) IN
  Cut(FlattenSeq([j \in 1..Len(es) |-> IF es[j] = Err THEN <<Err>> ELSE IF es[j][3] = <<>> THEN <<Err>> ELSE TreeRaw(T, es[j][1], es[j][3][1])]))
Typed(T, q) == Cut([j \in 1..Len(q) |-> IF q[j] = Err THEN Err
                     ELSE LET d == ReadDescr(T, q[j][3], q[j][4]) IN IF d = Err THEN Err ELSE <<q[j][1], q[j][2], d>>])
Latest(q) == Cut([j \in 1..Len(q) |-> IF q[j] = Err THEN Err
                   ELSE LET b == q[j][3] IN
                        IF Len(b) < 708 \/ ~(Take(b, 4) \in {"1010", "1011"}) THEN Err
                        ELSE <<q[j][1], q[j][2], Field(b, 4, 32), Hex(Field(b, 196, 256)), Hex(Field(b, 452, 256))>>])
One(T, root, w) ==
  LET f == Lookup(T, root, w) IN
  IF f = Err THEN Err ELSE IF f[1] = "none" THEN <<"none">> ELSE IF f[3] = <<>> THEN Err
  ELSE LET q == TreeRaw(T, w, f[3][1]) IN
       <<f[3][1], q, [j \in 1..Len(q) |-> IF q[j] = Err THEN Err ELSE <<q[j][1], q[j][2]>>],
         [j \in 1..Len(q) |-> IF q[j] = Err THEN Err ELSE <<q[j][3], q[j][4]>>], Typed(T, q), Latest(q)>>
Read(tr, s, ev) ==
  LET T == tr.cells
      root == IF ev.root = -1 THEN s ELSE ev.root
      q == AllRaw(T, root)
      \* a workchain that is behind a malformed part may also be told to be absent
      one(w, x) == LET o == One(T, root, w) IN IF o = Err /\ x = <<"none">> THEN x ELSE o
      exp == <<"ok", q, Typed(T, q), Latest(q), [j \in 1..Len(ev.wcs) |-> one(ev.wcs[j], ev.r[5][j])]>>
      wrong == {j \in 1..5 : ev.r[j] # exp[j]}
  IN  IF ev.r[1] # "ok" THEN <<s, "expected an answer">>
      ELSE IF Len(ev.r) # 5 \/ Len(ev.r[5]) # Len(ev.wcs) THEN <<s, "expected five parts">>
      ELSE IF wrong = {} THEN Good(s)
      ELSE LET j == CHOOSE k \in wrong : \A l \in wrong : k <= l IN <<s, "part " \o ToString(j) \o ", expected " \o ToString(exp[j])>>

SStep(tr, s, ev) ==
  LET T == tr.cells IN
  IF ev.r[1] = "panic" THEN <<s, "panicked">>
  ELSE IF ev.r[1] = "tool" THEN <<s, "the harness does not know this operation">>
  ELSE CASE
     ev.op = "new" -> IF IsIdent(ev.w, ev.u) THEN Want(s, ev, <<"ok">> \o Of(ev.w, Path(ev.u))) ELSE Want(s, ev, <<"none">>)
  [] ev.op = "load" ->
       LET x == LoadIdent(ev.v) IN
       \* a masterchain shard with a path may be refused
       IF x = Err THEN WantErr(s, ev)
       ELSE IF x[1] = Master /\ x[2] # "" /\ ev.r[1] = "err" THEN Good(s)
       ELSE Want(s, ev, <<"ok">> \o Of(x[1], x[2]) \o <<Len(ev.v) - 104>>)
  [] ev.op = "parse" -> LET x == ParseIdent(ev.v) IN Answer(s, ev, IF x = Err THEN Err ELSE Of(x[1], x[2]))
  [] ev.op = "parseid" ->
       LET x == ParseBlockId(ev.v) IN
       Answer(s, ev, IF x = Err THEN Err ELSE Id(x[1], x[2]) \o <<x[3], x[4], x[5], IdentText(x[1], x[2]) \o ":" \o BDec(x[3]) \o ":" \o x[4] \o ":" \o x[5]>>)
  [] ev.op = "ask" -> Want(s, ev, <<"ok">> \o Ask(ev.a[1], Path(ev.a[2]), ev.b[1], Path(ev.b[2]), ev.acc, ev.aw))
  [] ev.op = "addr" -> \* a short address goes on with zeros
       LET x == ev.v \o Rep("0", 64) IN Want(s, ev, <<"ok", ev.w = ev.a[1] /\ Holds(Path(ev.a[2]), x), Take(x, 64), ev.w = Master>>)
  [] ev.op = "short" -> \* next and previous block numbers stop at the ends
       LET n == BAdd(ev.n, ev.d, 33)
           up == IF BitAt(n, 1) = "1" THEN Rep("1", 32) ELSE Drop(n, 1)
           down == IF BCmp(ev.n, ev.d) < 0 THEN Rep("0", 32) ELSE BSub(ev.n, ev.d, 32)
           next == IF ev.n = Rep("1", 32) THEN ev.n ELSE BAdd(ev.n, "1", 32)
           prev == IF BCmp(ev.n, "") = 0 THEN ev.n ELSE BSub(ev.n, "1", 32)
       IN  Want(s, ev, <<"ok", up, down, next, prev, IdentText(ev.a[1], Path(ev.a[2])) \o ":" \o BDec(ev.n)>>)
  [] ev.op = "mk" -> IF ev.r[1] = "err" \/ T[ev.r[2]] = <<ev.x, ev.v, ev.refs>> THEN Good(s) ELSE <<s, "another cell">>
  [] ev.op = "wrap" -> \* the last one of a workchain counts
       LET m == FoldLeft(LAMBDA f, x : (x[1] :> x[2]) @@ f, << >>, ev.list)
           es == Entries(T, ev.r[2], 32)
       IN  IF ev.r[1] = "ok" /\ ~Ends(es) /\ {es[j] : j \in 1..Len(es)} = {<<w, "", <<m[w]>>>> : w \in DOMAIN m} THEN Good(s) ELSE <<s, "another dictionary">>
  [] ev.op = "build" -> Build(tr, s, ev)
  [] ev.op = "read" -> Read(tr, s, ev)
=============================================================================
