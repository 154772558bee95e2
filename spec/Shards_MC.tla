------------------------------ MODULE Shards_MC ------------------------------
(***************************************************************************)
(* Pairs of shards below a few bases, with the laws of the tree they are   *)
(* nodes of; and all sequences of shards of a small tree, with what makes  *)
(* them a partition.  Both are also histories.                             *)
(***************************************************************************)
EXTENDS Shards, Json, FiniteSets

CONSTANTS Mode, Depth
VARIABLES base, q

Words(n) == UNION {[1..k -> {"0", "1"}] : k \in 0..n}
Str(f) == FoldLeft(LAMBDA a, x : a \o x, "", f)
Small == {Str(f) : f \in Words(Depth)}
Pattern == "011010011110000101101001100001011010011110000101101001100010"
Bases == {"", "0", Take(Pattern, 30), Take(Pattern, 60 - Depth)}
Wcs == {Rep("0", 32), Rep("1", 31) \o "0", Rep("0", 31) \o "1"}

InOrder(a, b) == LexLt(Raw(a), Raw(b))
SmallSeq == SetToSortSeq(Small, InOrder)
(* pairs: base and a shard.  parts: a non-decreasing sequence of numbers of shards *)
Init == /\ base \in IF Mode = "pairs" THEN Bases ELSE {""}
        /\ q \in IF Mode = "pairs" THEN {<<p>> : p \in Small} ELSE {<<>>}
Next == Mode = "parts" /\ Len(q) < 5 /\ base' = base
        /\ \E p \in Small : (IF q = <<>> THEN TRUE ELSE q[Len(q)] = p \/ InOrder(q[Len(q)], p)) /\ q' = Append(q, p)

P == base \o q[1]
W == Rep("0", 32)
Far == IF base = "" THEN {} ELSE {Other(base) \o Take("0110", Min2(4, 60 - Len(base))), Parent(base)}
Others == {base \o p : p \in Small} \cup Far
Account(p, c) == p \o Rep(c, 256 - Len(p))

Laws == Mode = "pairs" =>
  /\ Path(Raw(P)) = P /\ IsIdent(W, Raw(P))
  /\ LoadIdent(IdentBits(W, P)) = <<W, P>>
  /\ \A w \in Wcs : ParseIdent(IdentText(w, P)) = <<w, P>>
  /\ Len(P) < MaxDepth => /\ Parent(P \o "0") = P /\ Parent(P \o "1") = P /\ Other(P \o "0") = P \o "1"
                          /\ InOrder(P \o "0", P) /\ InOrder(P, P \o "1")
  /\ P # "" => Other(Other(P)) = P /\ Parent(Other(P)) = Parent(P) /\ ~Meet(P, Other(P))
  /\ \A o \in Others :
       /\ Order(W, P, W, o) = -Order(W, o, W, P) /\ (Order(W, P, W, o) = 0) = (P = o)
       /\ Ancestor(P, o) /\ Ancestor(o, P) => P = o
       /\ Ancestor(P, o) = (P = o \/ (o # "" /\ Ancestor(P, Parent(o))))
       \* two shards meet when there is an account in both
       /\ Meet(P, o) = (\E c \in {"0", "1"} : \E r \in {P, o} : Holds(P, Account(r, c)) /\ Holds(o, Account(r, c)))
       /\ Ancestor(P, o) = (\A c \in {"0", "1"} : Holds(P, Account(o, c)))

Accounts == {p \in Small : Len(p) = Depth}
(* every account is in exactly one shard *)
Partition == Mode = "parts" =>
  Complete(q, "") = (\A a \in Accounts : Cardinality({j \in 1..Len(q) : Holds(q[j], a)}) = 1)

(* histories *)
OthersSeq == SetToSeq(Others)
AskOp(o, c, w) == [op |-> "ask", a |-> <<W, Raw(P)>>, b |-> <<w, Raw(o)>>, acc |-> Account(o, c), aw |-> W]
Asks == FlattenSeq([k \in 1..Len(OthersSeq) |-> <<AskOp(OthersSeq[k], "0", W), AskOp(OthersSeq[k], "1", IF k % 3 = 0 THEN Rep("1", 31) \o "0" ELSE W)>>])
Forms == FlattenSeq([k \in 1..3 |-> LET w == SetToSeq(Wcs)[k] IN
           <<[op |-> "new", w |-> w, u |-> Raw(P)], [op |-> "load", v |-> IdentBits(w, P) \o Rep("01", k)], [op |-> "parse", v |-> IdentText(w, P)],
             [op |-> "short", a |-> <<w, Raw(P)>>, n |-> Nat2Bits(k - 1, 32), d |-> Nat2Bits(k, 32)]>>])
D(k) == <<Nat2Bits(k, 32), W, Nat2Bits(k, 64), Rep("1", 64), Hex(Rep("01", 128)), Hex(Rep("0", 255) \o "1"), "10100", W, Rep("10", 32), W, Nat2Bits(9, 32),
          IF k = 1 THEN "" ELSE "1" \o Nat2Bits(k, 64), Nat2Bits(k - 1, 120), 0, Nat2Bits(256, 120), 0>>
List(w, off) == [j \in 1..Len(q) |-> <<w, Raw(q[((j + off - 1) % Len(q)) + 1]), 1 + (j % 2)>>]
Build(list) == <<[op |-> "build", ds |-> <<D(1), D(2)>>, list |-> list], [op |-> "read", root |-> -1, wcs |-> <<W, Rep("1", 32)>>]>>
Builds == Build(List(W, 0)) \o (IF Complete(q, "") THEN Build(List(W, 2) \o <<<<Rep("1", 32), Raw(""), 2>>>>) ELSE <<>>)
Gen == PrintT("GEN " \o ToJson([cfg |-> [none |-> 0], ev |-> IF Mode = "pairs" THEN Asks \o Forms ELSE IF q = <<>> THEN <<>> ELSE Builds]))
==============================================================================
