------------------------------- MODULE Abi_MC -------------------------------
(***************************************************************************)
(* All short tuples of the values of a menu, in every kind of version:     *)
(* what is encoded fits its cells and is read back as it was, and nothing  *)
(* is lost or left.  Each is then encoded and read by the code.            *)
(***************************************************************************)
EXTENDS Abi, Json, TLC

CONSTANTS Menu, Start, Most, Vers
VARIABLES ver, q

U(n) == <<"uint", n>>
One == <<0, "1">>
Ones(n) == <<0, Rep("1", n)>>
Std == "100" \o Rep("10", 132)
Var == "110" \o "000000011" \o Rep("1", 32) \o "101"
Quad == <<"tuple", <<<<"cell">>, <<"cell">>, <<"cell">>, <<"cell">>>>>>
(* where cells end *)
Limits == << <<U(1022), Ones(1000)>>, <<U(1), One>>, <<<<"cell">>, 2>>, <<<<"fixedarray", U(8), 1>>, <<One>>>>,
             <<<<"map", U(2), U(8)>>, <<>>>>, <<<<"optional", <<"cell">>>>, <<>>>>, <<<<"address">>, Std>> >>
(* references only *)
Links == << <<U(1), One>>, <<<<"cell">>, 2>>, <<<<"array", U(1)>>, <<>>>> >>
(* three references and many bits are there: what carries the last reference, and what ends the cell *)
Brink == << <<<<"tuple", <<<<"cell">>, <<"cell">>, <<"cell">>>>>>, <<1, 2, 1>>>>, <<U(990), Ones(3)>>, <<U(1), One>>, <<U(31), One>>, <<U(32), One>>, <<U(33), One>>,
            <<<<"cell">>, 2>>, <<<<"optional", <<"cell">>>>, <<2>>>>, <<<<"optional", <<"cell">>>>, <<>>>>, <<<<"map", <<"bool">>, U(8)>>, <<<<1, One>>>>>>,
            <<<<"fixedarray", U(8), 1>>, <<One>>>>, <<<<"array", U(8)>>, <<One>>>> >>
Nothing == <<>>
Both == <<1, 2>>
(* one of everything, but for the empty tuple, which the reader takes for something that follows *)
All == << <<U(8), <<0, "1111">>>>, <<<<"int", 5>>, <<1, "10000">>>>, <<<<"int", 1>>, <<0, "">>>>, <<<<"varuint", 4>>, Ones(17)>>, <<<<"varuint", 16>>, <<0, "">>>>,
          <<<<"varint", 3>>, <<1, "10000000">>>>, <<<<"varint", 32>>, <<0, "10000000">>>>, <<<<"bool">>, 1>>, <<<<"cell">>, 1>>,
          <<<<"address">>, Std>>, <<<<"address">>, Var>>, <<<<"token">>, Ones(120)>>, <<<<"token">>, <<0, "">>>>,
          <<<<"bytes">>, "">>, <<<<"bytes">>, Rep("01", 508) \o Rep("1", 8)>>, <<<<"fixedbytes", 2>>, Rep("0", 16)>>, <<<<"string">>, Unhex("41c3a9e282acf0908d88")>> ,
          <<<<"array", U(1)>>, <<>>>>, <<<<"array", U(33)>>, <<One, One, Ones(33)>>>>, <<<<"array", U(1000)>>, <<One, Ones(1000)>>>>,
          <<<<"fixedarray", <<"bool">>, 2>>, <<1, 0>>>>, <<<<"map", U(3), U(8)>>, <<>>>>, <<<<"map", <<"int", 2>>, <<"string">>>>, <<<<<<1, "10">>, "">>, <<<<0, "">>, "">>, <<<<1, "1">>, "01000001">>>>>>,
          <<<<"map", <<"bool">>, Quad>>, <<<<1, <<1, 2, 1, 2>>>>>>>>, <<<<"map", <<"address">>, U(800)>>, <<<<Std, One>>>>>>,
          <<<<"optional", <<"bool">>>>, <<>>>>, <<<<"optional", U(7)>>, <<One>>>>, <<<<"optional", Quad>>, <<<<1, 2, 1, 1>>>>>>, <<<<"optional", Quad>>, <<>>>>,
          <<<<"ref", U(1)>>, One>>, <<<<"ref", <<"tuple", <<<<"cell">>, U(2)>>>>>>, <<2, One>>>>, <<Quad, <<1, 1, 2, 1>>>>,
          <<<<"optional", <<"optional", <<"tuple", <<U(1), <<"ref", <<"bool">>>>>>>>>>>>, <<<<<<One, 1>>>>>>>> >>
OldNew == {<<1, 0>>, <<2, 0>>, <<2, 2>>}

T0 == << <<0, "", <<>>>>, <<0, "1101", <<1>>>> >>
Init == ver \in Vers /\ q = Start
Next == Len(q) < Most /\ \E j \in 1..Len(Menu) : q' = Append(q, j) /\ UNCHANGED ver
ty == <<"tuple", [j \in 1..Len(q) |-> Menu[q[j]][1]]>>
vals == [j \in 1..Len(q) |-> Menu[q[j]][2]]
Made == TLCEval(Encode(T0, ty, vals, ver))
RoundTrip ==
  LET x == Made
      d == DecodeCell(x[1], x[2], ty, ver, FALSE)
      (* more bits and references than are read are noticed *)
      more == Intern(x[1], <<0, x[1][x[2]][2] \o "0", x[1][x[2]][3]>>)
  IN  /\ x[2] # 0
      /\ \A k \in 1..Len(x[1]) : Len(x[1][k][2]) <= 1023 /\ Len(x[1][k][3]) <= 4
      /\ d # <<>> /\ Same(ty, vals, d[1]) /\ d[2] = 0 /\ d[3] = 0
      /\ (q # <<>> /\ x[1][x[2]][3] = <<>>) => DecodeCell(more[1], more[2], ty, ver, FALSE) = <<>>
Gen == LET x == Made
           op(c, t, p) == [op |-> "dec", ver |-> ver, cell |-> c, ty |-> t, partial |-> p]
           less == <<"tuple", SubSeq(ty[2], 1, Len(q) - 1)>>
       IN  q # <<>> => PrintT("GEN " \o ToJson([cfg |-> [none |-> 0, cells |-> x[1]],
              ev |-> <<[op |-> "enc", ver |-> ver, ty |-> ty, v |-> vals], op(x[2], ty, FALSE), op(x[2], less, TRUE), op(x[2], less, FALSE)>>]))
=============================================================================
