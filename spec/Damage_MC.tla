----------------------------- MODULE Damage_MC ------------------------------
(***************************************************************************)
(* Every tree of a root and its children over small rows, taken for a      *)
(* dictionary with keys of N bits: the reading relation is consistent, and *)
(* every operation is played on the code.                                  *)
(***************************************************************************)
EXTENDS Damage, Json, TLC

CONSTANTS N, Bits0, Kids, Every
VARIABLES phase, root

Pruned == "0000000100000001" \o Rep("01", 128) \o Rep("0", 16)
Rows == <<<<0, "", <<>>>>, <<0, "0", <<>>>>, <<0, "00", <<>>>>, <<0, "0100", <<>>>>, <<0, "01011", <<>>>>, <<0, "1010", <<>>>>,
          <<0, "1101", <<>>>>, <<0, "11", <<>>>>, <<1, Pruned, <<>>>>, <<0, "00", <<1, 1>>>>, <<0, "00", <<3, 4>>>>, <<0, "011001", <<>>>>,
          <<0, "00", <<3>>>>, <<0, "00", <<9, 3>>>>>>
Few == {1, 3, 4, 9, 10}
Many == 1..14
BitsOf(x) == IF x = 0 THEN {""} ELSE {Nat2Bits(w, x) : w \in 0..(2^x - 1)}
Strings(k) == UNION {BitsOf(x) : x \in 0..k}
(* a good dictionary, to be merged with: the keys 0.. and 1.. *)
Fine == <<<<0, HmLabel(Rep("0", N - 1), N - 1) \o "1", <<>>>>, <<0, HmLabel(Rep("1", N - 1), N - 1), <<1>>>>,
          <<0, "00", <<Len(Rows) + 1, Len(Rows) + 2>>>>>>
T0 == Rows \o Fine
T == IF phase < 2 \/ (\E x \in 1..Len(T0) : T0[x] = root) THEN T0 ELSE Append(T0, root)
C == CHOOSE x \in 1..Len(T) : T[x] = root
I == Items(T, C, N, FALSE)

Init == phase = 0 /\ root = <<>>
Choose == phase = 0 /\ \E b \in Strings(Bits0) : root' = <<0, b, <<>>>> /\ phase' = 1
Make == /\ phase = 1 /\ phase' = 2
        /\ \E q \in {<<>>} \cup {<<a>> : a \in Kids} \cup (Kids \X Kids) : root' = [root EXCEPT ![3] = q]
Next == Choose \/ Make

AllKeys == BitsOf(N)
(* the items come in order and share no keys *)
Apart == phase = 2 => \A x, y \in 1..Len(I) : x < y => ~StartsWith(I[x].k, I[y].k) /\ ~StartsWith(I[y].k, I[x].k) /\ LexLt(I[x].k, I[y].k)
(* reading one key sees what reading them all sees *)
Agree == phase = 2 => \A k \in AllKeys :
  Lookup(T, C, k) = IF k \in Keys(Ents(I)) THEN <<"ok", Ents(I)[k][1], Ents(I)[k][2]>> ELSE IF Hidden(Gaps(I), k) THEN Err ELSE <<"none">>
(* going from one to the next is going through all of them, both ways, signed or not *)
Steps == phase = 2 => \A rev, signed \in BOOLEAN :
  LET J == Arrange(I, rev, signed) IN
  \A x \in 1..Len(J) : ~J[x].gap =>
    Next1(I, J[x].k, N, ~rev, FALSE, signed) = (IF x = Len(J) THEN <<>> ELSE <<J[x + 1]>>) /\ Next1(I, J[x].k, N, ~rev, TRUE, signed) = <<J[x]>>
(* a readable tree is a map: the entries of a canonical tree are the map it stands for *)
Known == phase = 2 /\ Whole(I) /\ IsDict(Ents(I), N, C, T, FALSE) => Entries(T, C, N) = [j \in 1..Len(I) |-> <<I[j].k, I[j].v[1], I[j].v[2]>>]

Ks == [j \in 1..2^N |-> Nat2Bits(j - 1, N)]
Flat(f(_)) == FlattenSeq([j \in 1..Len(Ks) |-> f(Ks[j])])
Bools == <<FALSE, TRUE>>
V == <<"1", <<1>>>>
Op(name, k) == [op |-> name, L |-> "free", d |-> 0, k |-> k]
Reads == Flat(LAMBDA k : <<Op("get", k), Op("getown", k), [Op("contains", k) EXCEPT !.L = "raw"], [Op("get", k) EXCEPT !.L = "raw"]>>)
Writes == Flat(LAMBDA k : <<Op("ins", k) @@ [v |-> V, m |-> "set"], Op("insown", k) @@ [v |-> V, m |-> "replace"], Op("ins", k) @@ [v |-> V, m |-> "add"], Op("rem", k)>>)
         \o <<Op("remsub", "0"), Op("remsub", "1"), Op("remsub", "")>>
Orders == FlattenSeq([a \in 1..2 |-> FlattenSeq([b \in 1..2 |->
            LET f == [max |-> Bools[a], signed |-> Bools[b]]
                it == [op |-> "iter", L |-> "free", d |-> 0, rev |-> Bools[a], signed |-> Bools[b]]
            IN  Flat(LAMBDA k : <<Op("find", k) @@ f @@ [incl |-> FALSE], Op("find", k) @@ f @@ [incl |-> TRUE]>>)
                \o <<[op |-> "bound", L |-> "free", d |-> 0] @@ f, [op |-> "boundown", L |-> "free", d |-> 0] @@ f,
                     [op |-> "rembound", L |-> "free", d |-> 0] @@ f,
                     it @@ [kind |-> "iter"], it @@ [kind |-> "owned"], it @@ [kind |-> "keys"],
                     [op |-> "union", L |-> "free", d |-> 0, d2 |-> 1, rev |-> Bools[a], signed |-> Bools[b]],
                     [op |-> "union", L |-> "free", d |-> 1, d2 |-> 0, rev |-> Bools[a], signed |-> Bools[b]]>>])])
Bulks == <<[op |-> "modify", L |-> "raw", d |-> 0, items |-> [j \in 1..Len(Ks) |-> <<Ks[j], <<>>>>]],
           [op |-> "modify", L |-> "raw", d |-> 0, items |-> [j \in 1..Len(Ks) |-> <<Ks[j], <<V>>>>]]>>
         \o Flat(LAMBDA k : <<[op |-> "modify", L |-> "raw", d |-> 0, items |-> <<<<k, <<>>>>>>],
                              [op |-> "modify", L |-> "raw", d |-> 0, items |-> <<<<k, <<V>>>>>>]>>)
         \o <<[Op("split", "") EXCEPT !.L = "raw"] @@ [t |-> 0, t2 |-> 1],
              Op("split", "0") @@ [t |-> 0, t2 |-> 1], Op("split", "1") @@ [t |-> 0, t2 |-> 1],
              [op |-> "merge", L |-> "free", d |-> 0, d2 |-> 3], [op |-> "merge", L |-> "free", d |-> 1, d2 |-> 2],
              [op |-> "mergesib", L |-> "free", d |-> 2, d2 |-> 3, t |-> 0], [op |-> "mergesib", L |-> "free", d |-> 3, d2 |-> 2, t |-> 0],
              [op |-> "loadroot", L |-> "free", d |-> 0, v |-> V]>>
Anew == <<[op |-> "copy", d |-> 2, t |-> 0], [op |-> "copy", d |-> 3, t |-> 1]>>
Fresh(q) == FlattenSeq([j \in 1..Len(q) |-> IF q[j].op \in {"get", "getown", "contains", "find", "bound", "boundown", "iter", "union", "copy"} THEN <<q[j]>> ELSE <<q[j]>> \o Anew])
Groups == TLCEval(<<Reads \o Fresh(Writes), Orders \o Fresh(SelectSeq(Orders, LAMBDA o : o.op = "rembound")), Fresh(Bulks)>>)
Which == IF Every THEN 1..3 ELSE {1 + ((Len(root[2]) + Bits2Nat("0" \o root[2]) + Len(root[3]) + (IF root[3] = <<>> THEN 0 ELSE root[3][1] + root[3][Len(root[3])])) % 3)}
Gen == phase = 2 =>
  PrintT("GEN " \o ToJson([cfg |-> [n |-> N, kind |-> "", aug |-> 0, cells |-> T, roots |-> <<C, Len(T0), C, Len(T0)>>],
                           ev |-> FlattenSeq([g \in 1..3 |-> IF g \in Which THEN Groups[g] ELSE <<>>])]))
=============================================================================
