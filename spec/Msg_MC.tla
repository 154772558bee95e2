------------------------------- MODULE Msg_MC -------------------------------
(***************************************************************************)
(* The rule of the layout over all classes of sizes near the limits; and   *)
(* messages of such sizes, in every layout, to be read by the code.        *)
(***************************************************************************)
EXTENDS Msg, TlbGen, Json, TLC

CONSTANTS Kinds, Seeds, Heads
VARIABLES want, g, out

(* want: <<kind, seed, header, state, body>>: how large the parts are to be *)
Near == {1020, 1021, 1022, 1023, 1024, 1025}
States == {<<0, 0>>} \cup {<<b, r>> : b \in {5, 7, 10, 12}, r \in 0..3}
None == <<"", 0>>

(* all classes: h, s, b are sizes *)
Bodies(h, s) == {<<b, r>> : b \in {0, 1, 500, 1023} \cup {n - h[1] - k : n \in Near, k \in {2, 3, 3 + s[1]}}, r \in 0..4}
Layouts == {"00", "01", "10", "11"}
Sound(h, has, s, b) ==
  LET best == Best(h, has, s, b)
      any == \E l \in Layouts : FitsAs(h, has, s, b, l)
      here(l, k) == BitAt(l, k) = "0"
  IN  /\ any => FitsAs(h, has, s, b, best)                                \* what can be stored is stored
      /\ FitsAs(h, has, s, b, "00") => best = "00"                        \* and nothing is moved out without need
      /\ (any /\ best = "11" /\ has) => ~FitsAs(h, has, s, b, "10") /\ ~FitsAs(h, has, s, b, "01")
ASSUME \A hb \in Heads, hr \in 0..1 : \A s \in States : \A has \in (IF s = <<0, 0>> THEN {FALSE} ELSE {TRUE}) :
         \A b \in {x \in Bodies(<<hb, hr>>, s) : x[1] >= 0 /\ x[1] <= 1023} : Sound(<<hb, hr>>, has, s, b)

(* a message with a body that brings the root cell to n bits if the parts in `here` are in it *)
Init == want = None /\ g = Start(0) /\ out = <<>>
Choose == /\ want = None
          /\ \E t \in Kinds, seed \in 1..Seeds : want' = <<t, seed>>
          /\ UNCHANGED <<g, out>>
SizesNear == <<1023, 1023, 1024, 1022, 700>>
Make == /\ want # None /\ out = <<>>
        /\ LET h0 == Turn(Turn(Start(want[2] * 3 + Len(want[1]))))
               hd == TLCEval(Some(h0, Ty(want[1]), 0))
               has == Pick(hd, 3) > 0
               st == TLCEval(Some(Open(Say(hd, <<IF has THEN "1" ELSE "0">>, "")), IF has THEN Ty("StateInit") ELSE Nil, 0))
               n == SizesNear[1 + Pick(Turn(st), 5)]
               k == Pick(Turn(Turn(st)), 4)
               bl == n - Len(hd.b) - 2 - (IF has THEN 1 ELSE 0) - (IF Pick(st, 3) > 0 THEN Len(st.b) ELSE 0)
               bb == Rand(st.s, Max2(0, Min2(1023, bl)))
               br == SubSeq(<<2, 3, 2, 1>>, 1, k)
               t1 == IF has THEN Intern(st.T, <<0, st.b, st.r>>)[1] ELSE st.T
               t2 == Intern(t1, <<0, bb, br>>)[1]
               h == Header(t2, want[1], st.v)
               s == State(t2, h)
               fit == {l \in Layouts : FitsAs(SizeOf(h), has, SizeOf(s), BodySize(<<0, bb, br>>), l)}
           IN  /\ hd.good /\ st.good /\ h.fit /\ s.fit /\ fit # {}
               /\ g' = [st EXCEPT !.T = t2]
               /\ out' = FoldLeft(LAMBDA a, l : IF l \in fit THEN Append(a, <<l, Compose(t2, h, s, <<0, bb, br>>, l), <<0, bb, br>>>>) ELSE a, <<>>, <<"00", "01", "10", "11">>)
        /\ UNCHANGED want
Next == Choose \/ Make

(* a message is read back from every layout that it fits in *)
ReadsBack == \A j \in 1..Len(out) : \A own \in BOOLEAN :
  LET x == Intern(g.T, out[j][2])
      e == ReadMsg(x[1], want[1], x[2], own)
  IN  e.ok /\ e.v = g.v /\ e.body = out[j][3] /\ (e.lay = out[j][1] \/ (Part(Header(g.T, want[1], g.v), 1) = "0" /\ BitAt(e.lay, 2) = BitAt(out[j][1], 2))) /\ e.left = <<0, 0>>
Gen == out = <<>> \/
  LET R == FoldLeft(LAMBDA a, o : LET x == Intern(a[1], o[2]) IN <<x[1], Append(a[2], x[2])>>, <<g.T, <<>>>>, out)
  IN  PrintT("GEN " \o ToJson([cfg |-> [none |-> 0, cells |-> R[1]],
        ev |-> [j \in 1..Len(R[2]) |-> [op |-> "dec", t |-> want[1], own |-> ((want[2] + j) % 2 = 0), cell |-> R[2][j]]]]))
=============================================================================
