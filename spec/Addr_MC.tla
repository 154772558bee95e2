------------------------------ MODULE Addr_MC --------------------------------
(***************************************************************************)
(* Addresses of every kind with anycast prefixes and values at the ends of *)
(* their ranges, every pair of them, and every edit of one character of    *)
(* their notations, with the laws of the notations; and the same as        *)
(* histories.                                                              *)
(***************************************************************************)
EXTENDS Addr, Json, SequencesExt, FiniteSets

CONSTANTS Lens,       \* lengths of anycast prefixes, 0 for none
          Wide        \* also lengthen and shorten the texts, and more replacements
VARIABLES k, i, j

Values == {Rep("0", 256), Rep("1", 256), Rep("0110", 64)}
Anys == {IF n = 0 THEN "-" ELSE Take(p, n) : n \in Lens, p \in {Rep("0", 30), Rep("10", 15)}}
Stds == {Std(any, wc, v) : any \in Anys, wc \in {Rep("0", 8), Rep("1", 8), "10000000", "01111111"}, v \in Values}
Short == {"", "1", Rep("01", 4), Rep("01", 4) \o "1", Rep("10", 32) \o "11", Rep("1", 508), Rep("1", 511)}
Vars == {Var(any, wc, v) : any \in Anys, wc \in {Rep("0", 32), Rep("1", 32)}, v \in Short}
Exts == {Ext(v) : v \in Short \cup {Rep("0", 510)}}
Addrs == SetToSeq(Stds \cup Vars \cup Exts)
Few == SetToSeq({Std(any, wc, v) : any \in Anys, wc \in {Rep("0", 8), Rep("1", 8)}, v \in {Rep("0", 256), Rep("0110", 64)}}
                \cup {Var(any, wc, v) : any \in Anys, wc \in {Rep("0", 32), Rep("1", 32)}, v \in {"", "1", "01"}})

A == Std("-", "11111111", Rep("0110", 64))
B == Std("-", "00000000", Rep("1", 256))
H == Hex(Rep("0110", 64))
(* notation, text, formats allowed *)
Texts == <<<<"std", ShowStd(A), <<TRUE, TRUE, TRUE>> >>, <<"any", ShowStd(B), <<TRUE, TRUE, TRUE>> >>, <<"any", ShowStd(A), <<FALSE, TRUE, TRUE>> >>,
           <<"any", Show64(A, TRUE, FALSE, FALSE), <<TRUE, TRUE, FALSE>> >>, <<"any", Show64(B, FALSE, TRUE, TRUE), <<TRUE, FALSE, TRUE>> >>,
           <<"any", Show64(B, TRUE, TRUE, FALSE), <<TRUE, FALSE, TRUE>> >>, <<"any", Show64(B, FALSE, FALSE, TRUE), <<TRUE, TRUE, FALSE>> >>,
           <<"any", Show64(B, FALSE, FALSE, FALSE), <<TRUE, FALSE, FALSE>> >>, <<"json64", Show64(A, FALSE, FALSE, TRUE), <<TRUE, TRUE, TRUE>> >>,
           <<"jsonint", ShowStd(B), <<TRUE, TRUE, TRUE>> >>,
           <<"ext", ShowExt(Ext(Rep("01", 9))), <<TRUE, TRUE, TRUE>> >>, <<"jsonext", ShowExt(Ext(Rep("1", 12))), <<TRUE, TRUE, TRUE>> >>,
           <<"hash", H, <<TRUE, TRUE, TRUE>> >>, <<"hash", "0x" \o H, <<TRUE, TRUE, TRUE>> >>, <<"jsonhash", H, <<TRUE, TRUE, TRUE>> >>,
           <<"hash", Base64(Rep("0110", 64) \o "00", FALSE) \o "=", <<TRUE, TRUE, TRUE>> >> >>
Marks == IF Wide THEN <<"0", "1", "9", "f", "F", "g", "A", "z", "Z", "+", "/", "-", "_", "=", ":", " ", "é", "日">>
         ELSE <<"0", "f", "g", "A", "+", "_", "=", ":", "é", "日">>
Edits == IF Wide THEN {"swap", "cut", "drop", "grow"} ELSE {"swap", "cut"}
Edited(s, e, at, c) == CASE e = "swap" -> Take(s, at - 1) \o c \o Drop(s, at)
                         [] e = "cut" -> Take(s, at - 1)
                         [] e = "drop" -> Take(s, at - 1) \o Drop(s, at)
                         [] e = "grow" -> Take(s, at) \o c \o Drop(s, at)

Init == k = "start" /\ i = 0 /\ j = 0
Next == /\ k = "start"
        /\ \/ k' = "addr" /\ i' \in 1..Len(Addrs) /\ j' = 0
           \/ k' = "cmp" /\ i' \in 1..Len(Few) /\ j' = 0
           \/ k' \in Edits /\ i' \in 1..Len(Texts) /\ j' \in 1..70 /\ j' <= Len(Texts[i'][2])

(*-------------------------------- laws ----------------------------------*)
a == Addrs[i]
Round == k = "addr" =>
  /\ LoadAddr(AddrBits(a)) = <<a, "">> /\ LoadAddr(AddrBits(a) \o "101") = <<a, "101">>
  /\ \A n \in 0..(Len(AddrBits(a)) - 1) : IsBad(LoadAddr(Take(AddrBits(a), n))[1])
  /\ a.t = "ext" => ParseExt(ShowExt(a)) = a
  /\ (a.t = "std" /\ a.any = "-") =>
     /\ ParseStd(ShowStd(a)) = a
     /\ \A f, t, u \in BOOLEAN : LET s == Show64(a, f, t, u) IN
          /\ Parse64(s, TRUE, TRUE) = <<a, t, u /\ Chars(s) \cap {"-", "_"} # {}, f>>
          /\ Parse64(s, ~u, u)[1] = a
(* an order: of every two different addresses exactly one comes first, and it is transitive *)
Order == k = "cmp" => \A m \in 1..Len(Few) :
  /\ CmpAddr(Few[i], Few[m]) = 0 - CmpAddr(Few[m], Few[i]) /\ (CmpAddr(Few[i], Few[m]) = 0) = (i = m)
  /\ \A l \in 1..Len(Few) : (CmpAddr(Few[i], Few[m]) < 0 /\ CmpAddr(Few[m], Few[l]) < 0) => CmpAddr(Few[i], Few[l]) < 0
(* a base64 address with another character is another address only where the checksum cannot tell, which it always can *)
Checked == (k = "swap" /\ Len(Texts[i][2]) = 48) =>
  \A m \in (IF Wide THEN 1..64 ELSE {1, 2, 17, 32, 33, 48, 63, 64}) : LET c == BitAt(Alphabet(FALSE), m)  s == Edited(Texts[i][2], "swap", j, c) IN
     s # Texts[i][2] => IsBad(ParseAny(s, TRUE, TRUE, TRUE)[1])

(*------------------------------ histories -------------------------------*)
Rec(x) == [t |-> x.t, any |-> x.any, wc |-> x.wc, v |-> x.v]
Cuts(n) == <<0, 1, 2, 3, 7, 8, 10, Min2(12, n - 1), n - 1>>
Flip(b, n) == Take(b, n - 1) \o (IF BitAt(b, n) = "1" THEN "0" ELSE "1") \o Drop(b, n)
AddrOps == LET b == AddrBits(a) IN
  <<[op |-> "make"] @@ Rec(a)>>
  \o [n \in 1..9 |-> [op |-> "load", what |-> "int", v |-> Take(b, Cuts(Len(b))[n])]]
  \o [n \in 1..8 |-> [op |-> "load", what |-> "int", v |-> Flip(b, n)]]
  \o <<[op |-> "load", what |-> "std", v |-> b], [op |-> "load", what |-> "int", v |-> b \o "01"]>>
  \o (IF a.t # "std" THEN <<>>
      ELSE <<[op |-> "key", any |-> a.any, wc |-> a.wc, v |-> a.v], [op |-> "unkey", v |-> Take(b, 267)]>>
           \o (IF a.any # "-" THEN <<>>
               ELSE [n \in 1..4 |-> [op |-> "show", any |-> "-", wc |-> a.wc, v |-> a.v, bounce |-> n > 2, test |-> n % 2 = 0]]))
CmpOps == [m \in 1..Len(Few) |-> [op |-> "cmp", a |-> Rec(Few[i]), b |-> Rec(Few[m])]]
TextOps == LET t == Texts[i] IN
  IF k \in {"cut", "drop"} THEN <<[op |-> "parse", what |-> t[1], f |-> t[3], s |-> Edited(t[2], k, j, "")]>>
  ELSE <<[op |-> "parse", what |-> t[1], f |-> t[3], s |-> t[2]]>>
       \o [m \in 1..Len(Marks) |-> [op |-> "parse", what |-> t[1], f |-> t[3], s |-> Edited(t[2], k, j, Marks[m])]]
Ops == IF k = "addr" THEN AddrOps ELSE IF k = "cmp" THEN CmpOps ELSE TextOps
Gen == k # "start" => PrintT("GEN " \o ToJson([cfg |-> [none |-> 0], ev |-> Ops]))
==============================================================================
