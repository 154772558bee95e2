-------------------------------- MODULE Msg ----------------------------------
(***************************************************************************)
(* Messages: a header, perhaps an initial state, and a body.  The state    *)
(* and the body are each either here or in a cell of their own; which      *)
(* is decided by the sizes alone.  A message is its parts (the header, a   *)
(* bit, the state if the bit is set) and a body <<exotic, bits, refs>>.    *)
(***************************************************************************)
EXTENDS Tlb

Fits(b, r) == b <= 1023 /\ r <= 4

(*------------------------------ the layout ------------------------------*)
(* a size is <<bits, references>>; hs, is, bs: of the header, of the state (nothing without one), of the body *)
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Flags(has) == <<IF has THEN 3 ELSE 2, 0>>
Whole(hs, has, is, bs, lay) ==
  LET s == IF ~has THEN <<0, 0>> ELSE IF BitAt(lay, 1) = "1" THEN <<0, 1>> ELSE is
      b == IF BitAt(lay, 2) = "1" THEN <<0, 1>> ELSE bs
  IN  Plus(Plus(Plus(hs, Flags(has)), s), b)
FitsAs(hs, has, is, bs, lay) == LET w == Whole(hs, has, is, bs, lay) IN Fits(w[1], w[2])
(* all of it here; else the body apart; else the state apart; else both *)
Best(hs, has, is, bs) ==
  LET ok(l) == FitsAs(hs, has, is, bs, l)
  IN  IF ok("00") THEN "00" ELSE IF ok("01") THEN "01" ELSE IF has /\ ok("10") THEN "10" ELSE "11"

(*------------------------------- writing --------------------------------*)
Header(T, ty, parts) == Enc(T, [b |-> "", r |-> <<>>, i |-> 0, v |-> parts, fit |-> TRUE], Ty(ty), 0)
HasState(h) == Part(h, 1) = "1"
State(T, h) == LET w == [h EXCEPT !.b = "", !.r = <<>>, !.i = @ + 1] IN IF HasState(h) THEN Enc(T, w, Ty("StateInit"), 0) ELSE w
SizeOf(w) == <<Len(w.b), Len(w.r)>>
BodySize(body) == <<Len(body[2]), Len(body[3])>>
(* the root cell in this layout *)
Compose(T, h, s, body, lay) ==
  LET own == BitAt(lay, 1) = "1"  apart == BitAt(lay, 2) = "1" IN
  <<0,
    h.b \o (IF ~HasState(h) THEN "0" ELSE IF own THEN "11" ELSE "10" \o s.b) \o (IF apart THEN "1" ELSE "0" \o body[2]),
    h.r \o (IF ~HasState(h) THEN <<>> ELSE IF own THEN <<IdOf(T, <<0, s.b, s.r>>)>> ELSE s.r)
        \o (IF apart THEN <<IdOf(T, body)>> ELSE body[3])>>

(*------------------------------- reading --------------------------------*)
(* own: whether the body is kept as a cell, so that it may be any cell *)
ReadMsg(T, ty, c, own) ==
  LET row == T[c]
      s0 == [ok |-> row[1] = 0, b |-> row[2], r |-> row[3], v |-> <<>>]
      h == Dec(T, s0, Ty(ty), FALSE, 0)
      none == [ok |-> FALSE, v |-> <<>>, body |-> <<0, "", <<>>>>, lay |-> "", left |-> <<0, 0>>]
  IN  IF ~h.ok THEN none ELSE IF h.b = "" THEN none
      ELSE LET has == BitAt(h.b, 1) = "1"
               m == Put(h, 1, Take(h.b, 1))
               apart == has /\ m.b # "" /\ BitAt(m.b \o "0", 1) = "1"
               st == IF ~has THEN m ELSE IF m.b = "" THEN NotOk(m)
                     ELSE Dec(T, [m EXCEPT !.b = Drop(@, 1)], IF apart THEN Ref(Ty("StateInit")) ELSE Ty("StateInit"), FALSE, 0)
           IN  IF ~st.ok THEN none ELSE IF st.b = "" THEN none
               ELSE LET there == BitAt(st.b, 1) = "1"
                        rest == Drop(st.b, 1)
                        lay == (IF apart THEN "1" ELSE "0") \o (IF there THEN "1" ELSE "0")
                    IN  IF ~there THEN [ok |-> TRUE, v |-> st.v, body |-> <<0, rest, st.r>>, lay |-> lay, left |-> <<0, 0>>]
                        ELSE IF st.r = <<>> THEN none
                        ELSE IF ~own /\ T[st.r[1]][1] = 1 THEN none
                        ELSE [ok |-> TRUE, v |-> st.v, body |-> T[st.r[1]], lay |-> lay, left |-> <<Len(rest), Len(st.r) - 1>>]
=============================================================================
