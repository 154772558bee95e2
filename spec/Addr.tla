-------------------------------- MODULE Addr --------------------------------
(***************************************************************************)
(* Addresses as records [t, any, wc, v]: t is "std", "var", "ext" or       *)
(* "none", any the prefix of an anycast address or "-", wc the workchain   *)
(* (8 or 32 bits, "" for external ones), v the address; and their          *)
(* notations.                                                              *)
(***************************************************************************)
EXTENDS Text

Bad == [t |-> "bad", any |-> "-", wc |-> "", v |-> ""]
IsBad(a) == a.t = "bad"
Std(any, wc, v) == [t |-> "std", any |-> any, wc |-> wc, v |-> v]
Var(any, wc, v) == [t |-> "var", any |-> any, wc |-> wc, v |-> v]
Ext(v) == [t |-> "ext", any |-> "-", wc |-> "", v |-> v]
NoAddr == [t |-> "none", any |-> "-", wc |-> "", v |-> ""]
Valid(a) == /\ a.any = "-" \/ (1 <= Len(a.any) /\ Len(a.any) <= 30)
            /\ CASE a.t = "std" -> Len(a.wc) = 8 /\ Len(a.v) = 256
                 [] a.t = "var" -> Len(a.wc) = 32 /\ Len(a.v) <= 511
                 [] a.t = "ext" -> Len(a.v) <= 511
                 [] OTHER -> a.t = "none"

(*----------------------------- binary form ------------------------------*)
AnyBits(any) == IF any = "-" THEN "0" ELSE "1" \o Nat2Bits(Len(any), 5) \o any
AddrBits(a) == CASE a.t = "none" -> "00"
              [] a.t = "ext" -> "01" \o Nat2Bits(Len(a.v), 9) \o a.v
              [] a.t = "std" -> "10" \o AnyBits(a.any) \o a.wc \o a.v
              [] a.t = "var" -> "11" \o AnyBits(a.any) \o Nat2Bits(Len(a.v), 9) \o a.wc \o a.v
(* the address at the start of b, and what is left *)
NoLeft == <<Bad, "">>
LoadAddr(b) ==
  IF Len(b) < 2 THEN NoLeft
  ELSE LET tag == Take(b, 2)  x == Drop(b, 2) IN
  CASE tag = "00" -> <<NoAddr, x>>
    [] tag = "01" -> IF Len(x) < 9 THEN NoLeft
                     ELSE LET n == Bits2Nat(Take(x, 9))  y == Drop(x, 9) IN
                          IF Len(y) < n THEN NoLeft ELSE <<Ext(Take(y, n)), Drop(y, n)>>
    [] OTHER ->
       IF x = "" THEN NoLeft
       ELSE LET is == BitAt(x, 1) = "1"
                d == IF is /\ Len(x) >= 6 THEN Bits2Nat(Take(Drop(x, 1), 5)) ELSE 0
                y == IF is THEN Drop(x, 6 + d) ELSE Drop(x, 1)
                any == IF is THEN Take(Drop(x, 6), d) ELSE "-"
            IN  IF is /\ (Len(x) < 6 + d \/ d = 0 \/ d > 30) THEN NoLeft
                ELSE IF tag = "10"
                     THEN IF Len(y) < 264 THEN NoLeft ELSE <<Std(any, Take(y, 8), Take(Drop(y, 8), 256)), Drop(y, 264)>>
                     ELSE IF Len(y) < 41 THEN NoLeft
                          ELSE LET n == Bits2Nat(Take(y, 9)) IN
                               IF Len(y) < 41 + n THEN NoLeft
                               ELSE <<Var(any, Take(Drop(y, 9), 32), Take(Drop(y, 41), n)), Drop(y, 41 + n)>>
Prefix(a) == LET x == Take(a.v, Min2(64, Len(a.v))) IN x \o Rep("0", 64 - Len(x))
IsMaster(a) == Uniform(a.wc) /\ BitAt(a.wc, 1) = "1"

(* the order of addresses: kind, anycast (by length first), length of variable ones, workchain, address *)
Cmp(a, b) == IF a = b THEN 0 ELSE IF LexLt(a, b) THEN 0 - 1 ELSE 1
CmpAny(a, b) == IF a = b THEN 0 ELSE IF a = "-" THEN 0 - 1 ELSE IF b = "-" THEN 1
                ELSE IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN 0 - 1 ELSE 1) ELSE Cmp(a, b)
Sgn(w) == (IF BitAt(w, 1) = "1" THEN "0" ELSE "1") \o Drop(w, 1)
RECURSIVE FirstOf(_)
FirstOf(q) == IF q = <<>> THEN 0 ELSE IF Head(q) # 0 THEN Head(q) ELSE FirstOf(Tail(q))
CmpAddr(a, b) == IF a.t # b.t THEN (IF a.t = "std" THEN 0 - 1 ELSE 1)
                 ELSE FirstOf(<<CmpAny(a.any, b.any), IF Len(a.v) = Len(b.v) THEN 0 ELSE IF Len(a.v) < Len(b.v) THEN 0 - 1 ELSE 1,
                                Cmp(Sgn(a.wc), Sgn(b.wc)), Cmp(a.v, b.v)>>)

(*------------------------------- text -----------------------------------*)
(* bits of any number: hex digits, with a tag bit and "_" where they are no whole digits *)
ShowBits(b) == IF Len(b) % 4 = 0 THEN Hex(b) ELSE LET x == b \o "1" IN Hex(x \o Rep("0", (4 - (Len(x) % 4)) % 4)) \o "_"
TextBad == "bad"
ParseBits(s) == LET tag == s # "" /\ BitAt(s, Len(s)) = "_"
                    h == IF tag THEN Take(s, Len(s) - 1) ELSE s
                IN  IF (h # "" /\ ~IsHex(h)) \/ Len(h) > 256 THEN TextBad
                    ELSE LET b == IF h = "" THEN "" ELSE Unhex(Lower(h)) IN
                         IF ~tag THEN b ELSE LET k == LastIdx(b, "1") IN IF k = 0 THEN "" ELSE Take(b, k - 1)
ShowExt(a) == ":" \o ShowBits(a.v)
ParseExt(s) == IF s = "" \/ BitAt(s, 1) # ":" THEN Bad
               ELSE LET b == ParseBits(Drop(s, 1)) IN IF b = TextBad \/ Len(b) > 511 THEN Bad ELSE Ext(b)

ShowStd(a) == (IF a.any = "-" THEN "" ELSE ShowBits(a.any) \o ":") \o ShowSigned(a.wc) \o ":" \o Hex(a.v)
ParseStd(s) == LET p == SplitBy(s, ":") IN
  IF Len(p) # 2 THEN Bad
  ELSE LET w == ParseSigned(p[1], 8) IN
       IF w = NotNumber \/ Len(p[2]) # 64 \/ ~IsHex(p[2]) THEN Bad ELSE Std("-", w, Unhex(Lower(p[2])))

Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
Alphabet(url) == Letters \o (IF url THEN "-_" ELSE "+/")
Value(url) == [c \in Chars(Alphabet(url)) |-> Nat2Bits(FirstIdx(Alphabet(url), c) - 1, 6)]
StdValue == Value(FALSE)
UrlValue == Value(TRUE)
Base64(b, url) == FoldLeft(LAMBDA a, j : a \o BitAt(Alphabet(url), 1 + Bits2Nat(Take(Drop(b, 6 * j - 6), 6))), "", [j \in 1..(Len(b) \div 6) |-> j])
(* all characters stand for six bits *)
UnBase64(s, url) == LET f == IF url THEN UrlValue ELSE StdValue IN
  IF Chars(s) \subseteq DOMAIN f THEN FoldLeft(LAMBDA a, j : a \o f[BitAt(s, j)], "", [j \in 1..Len(s) |-> j]) ELSE TextBad

FlagBits(bounce, test) == (IF test THEN "1" ELSE "0") \o (IF bounce THEN "0" ELSE "1") \o "010001"
Show64(a, bounce, test, url) == LET b == FlagBits(bounce, test) \o a.wc \o a.v IN Base64(b \o Unhex(Crc16(Hex(b))), url)
(* <<address, testnet, url, bounceable>> *)
NoFlags(a) == <<a, FALSE, FALSE, FALSE>>
Parse64(s, b64, url) ==
  LET isurl == Chars(s) \cap {"-", "_"} # {}
      isstd == Chars(s) \cap {"+", "/"} # {}
      b == UnBase64(s, isurl)
  IN  IF (isurl /\ ~url) \/ (isstd /\ ~b64) \/ b = TextBad THEN NoFlags(Bad)
      ELSE IF Unhex(Crc16(Hex(Take(b, 272)))) # Drop(b, 272) \/ Take(Drop(b, 2), 6) # "010001" THEN NoFlags(Bad)
      ELSE <<Std("-", Take(Drop(b, 8), 8), Take(Drop(b, 16), 256)), BitAt(b, 1) = "1", isurl, BitAt(b, 2) = "0">>
ParseAny(s, raw, b64, url) ==
  IF 66 <= Len(s) /\ Len(s) <= 69 /\ raw THEN NoFlags(ParseStd(s))
  ELSE IF Len(s) = 48 /\ (b64 \/ url) THEN Parse64(s, b64, url) ELSE NoFlags(Bad)

(* account ids on their own *)
ParseHash(s) == CASE Len(s) = 64 -> IF IsHex(s) THEN Unhex(Lower(s)) ELSE TextBad
                  [] Len(s) = 66 -> IF Take(s, 2) = "0x" /\ IsHex(Drop(s, 2)) THEN Unhex(Lower(Drop(s, 2))) ELSE TextBad
                  [] Len(s) = 44 -> IF BitAt(s, 44) # "=" THEN TextBad
                                    ELSE LET b == UnBase64(Take(s, 43), FALSE) IN
                                         IF b = TextBad THEN TextBad ELSE IF Drop(b, 256) # "00" THEN TextBad ELSE Take(b, 256)
                  [] OTHER -> TextBad
=============================================================================
