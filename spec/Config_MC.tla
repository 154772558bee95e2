----------------------------- MODULE Config_MC ------------------------------
(***************************************************************************)
(* Every map that can be made of a few numbers and cells: what is asked of *)
(* it, and what two places say together.                                   *)
(***************************************************************************)
EXTENDS Config, Json, TLC

CONSTANTS Ids, More, Steps
VARIABLES hist, m

Small0 == {0, 1, 2, 3}
Sets0 == {32, 33, 34, 35, 36, 37}
\* an address, another with something behind it, something shorter, what is no ordinary cell, a set of one
Val1 == Unhex("53") \o Unhex("8e81278a") \o Rep("10", 128) \o Zero(63) \o "1"
Set1 == Unhex("12") \o Nat2Bits(5, 32) \o Nat2Bits(9, 32) \o Nat2Bits(1, 16) \o Nat2Bits(1, 16) \o Zero(63) \o "1" \o "1"
Cells0 == << <<0, Rep("01", 128), <<>>>>, <<0, Rep("1", 256) \o "1", <<>>>>, <<0, Rep("1", 255), <<>>>>,
             <<1, "00000010" \o Rep("1", 256), <<>>>>, <<0, DI!HmLabel(Zero(16), 16) \o Val1, <<>>>>, <<0, Set1, <<5>>>> >>
(* numbers of the kind are from the same few cells *)
Which(n) == IF n \in Sets0 THEN {3, 6} ELSE {1, 2, 3} \cup More
Op(n, c) == [op |-> "set", id |-> Num32(n), cell |-> c]
Init == hist = <<>> /\ m = << <<Num32(0), 1, TRUE>> >>
Next == /\ Len(hist) < Steps
        /\ \/ \E n \in Ids : \E c \in Which(n) : m' = With(m, Num32(n), c, FALSE) /\ hist' = Append(hist, Op(n, c))
           \/ \E n \in Ids : m' = Removed(m, Num32(n)) /\ hist' = Append(hist, [op |-> "remove", id |-> Num32(n)])
View1 == m

Ask(w) == Answer(Cells0, m, w, FALSE, Num32(0))
Own(n) == Answer(Cells0, m, "param", FALSE, Num32(n))
Sound == \* what is kept
  /\ Num32(0) \in Keys(m)
  /\ \A j \in 1..(Len(m) - 1) : LexLt(m[j][1], m[j + 1][1])
  /\ \A n \in Ids : Without(With(m, Num32(n), 1, FALSE), Num32(n)) = Without(m, Num32(n))
Second == \* the second place counts only where the first has nothing
  /\ \A p \in {<<"minter", 2, 0>>, <<"collector", 3, 1>>, <<"current", 35, 34>>} :
       Ask(p[1]) = IF Own(p[2]) # <<"none">> THEN Own(p[2]) ELSE IF Own(p[3]) # <<"none">> THEN Own(p[3]) ELSE <<"err">>
  /\ \A p \in {<<"prev", 33, 32>>, <<"next", 37, 36>>} : Ask(p[1]) = IF Own(p[2]) # <<"none">> THEN Own(p[2]) ELSE Own(p[3])
Questions == [j \in 1..6 |-> [op |-> "get", what |-> <<"elector", "minter", "collector", "prev", "current", "next">>[j], mc |-> FALSE, id |-> Num32(0)]]
List0 == SetToSeq(Ids)
Gen == PrintT("GEN " \o ToJson([cfg |-> [none |-> 0, cells |-> Cells0],
  ev |-> <<[op |-> "new", addr |-> Rep("01", 128)]>> \o hist \o <<[op |-> "all"], [op |-> "has"], [op |-> "save"], [op |-> "json"]>> \o Questions
         \o FoldLeft(LAMBDA a, n : a \o <<[op |-> "raw", id |-> Num32(n)], [op |-> "get", what |-> "param", mc |-> FALSE, id |-> Num32(n)]>>, <<>>, List0)
         \o FoldLeft(LAMBDA a, n : a \o <<[op |-> "remove", id |-> Num32(n)], Op(n, 1), [op |-> "all"]>>, <<>>, List0)]))
=============================================================================
