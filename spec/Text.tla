--------------------------------- MODULE Text ---------------------------------
(* Operations on character strings. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ch(s, i) == SubSeq(s, i, i)
HT == "\t"
LF == "\n"
CR == "\r"
IsWs(c) == c \in {" ", HT, LF, CR}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
IsDigit(c) == c \in Digits
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, e) == Len(e) <= Len(s) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
From(s, i) == SubSeq(s, i, Len(s))
IsBlank(s) == \A i \in 1..Len(s) : IsWs(Ch(s, i))
\* index of the first position >= i holding a character outside / inside set
RECURSIVE SkipIn(_,_,_), SkipOut(_,_,_)
SkipIn(s, i, cs) == IF i <= Len(s) /\ Ch(s, i) \in cs THEN SkipIn(s, i + 1, cs) ELSE i
SkipOut(s, i, cs) == IF i <= Len(s) /\ Ch(s, i) \notin cs THEN SkipOut(s, i + 1, cs) ELSE i
Ws == {" ", HT, LF, CR}
LTrim(s) == From(s, SkipIn(s, 1, Ws))
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ IsWs(Ch(s, Len(s))) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
\* the tokens of s between characters of cs (empty tokens dropped)
RECURSIVE Tokens(_,_,_)
Tokens(s, i, cs) == LET b == SkipIn(s, i, cs) IN
   IF b > Len(s) THEN <<>> ELSE LET e == SkipOut(s, b, cs) IN <<SubSeq(s, b, e - 1)>> \o Tokens(s, e, cs)
\* the pieces of s between single characters c (empty pieces kept)
RECURSIVE Split(_,_,_)
Split(s, i, c) == LET e == SkipOut(s, i, {c}) IN
   IF e > Len(s) THEN <<From(s, i)>> ELSE <<SubSeq(s, i, e - 1)>> \o Split(s, e + 1, c)
RECURSIVE Join(_,_)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
\* position of the first occurrence of p in s at or after i, 0 if none
RECURSIVE Find(_,_,_)
Find(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE Find(s, p, i + 1)
Contains(s, p) == Find(s, p, 1) # 0
Lower(c) == CASE c="A"->"a"[]c="B"->"b"[]c="C"->"c"[]c="D"->"d"[]c="E"->"e"[]c="F"->"f"[]c="G"->"g"[]c="H"->"h"[]c="I"->"i"
  []c="J"->"j"[]c="K"->"k"[]c="L"->"l"[]c="M"->"m"[]c="N"->"n"[]c="O"->"o"[]c="P"->"p"[]c="Q"->"q"[]c="R"->"r"[]c="S"->"s"
  []c="T"->"t"[]c="U"->"u"[]c="V"->"v"[]c="W"->"w"[]c="X"->"x"[]c="Y"->"y"[]c="Z"->"z"[]OTHER->c
RECURSIVE LowerS(_)
LowerS(s) == IF s = "" THEN "" ELSE Lower(Ch(s, 1)) \o LowerS(From(s, 2))

(***************************************************************************)
(* Canonical form of a decimal number of at most 15 significant digits and *)
(* a magnitude below 1e15: no sign unless negative, no leading or trailing *)
(* zeros, d.ddde-XX below 1e-4.  (Within these limits binary64 and 15-digit printing *)
(* are the identity on decimals; "e" exponents are resolved by shifting.)  *)
(***************************************************************************)
RECURSIVE StripL(_), StripR(_), Zeros(_)
StripL(s) == IF Len(s) > 0 /\ Ch(s, 1) = "0" THEN StripL(From(s, 2)) ELSE s
StripR(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "0" THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
DigitVal == [ d \in Digits |-> CASE d="0"->0[]d="1"->1[]d="2"->2[]d="3"->3[]d="4"->4[]d="5"->5[]d="6"->6[]d="7"->7[]d="8"->8[]OTHER->9 ]
RECURSIVE NatOf(_,_)
NatOf(s, acc) == IF s = "" THEN acc ELSE NatOf(From(s, 2), acc * 10 + DigitVal[Ch(s, 1)])
IntOf(s) == IF s = "" THEN 0 ELSE IF Ch(s,1) = "-" THEN 0 - NatOf(From(s,2), 0) ELSE IF Ch(s,1) = "+" THEN NatOf(From(s,2),0) ELSE NatOf(s, 0)
CanonNum(text) ==
  LET s0 == LTrim(text)
      neg == s0 # "" /\ Ch(s0, 1) = "-"
      s1 == IF s0 # "" /\ Ch(s0, 1) \in {"-", "+"} THEN From(s0, 2) ELSE s0
      e1 == SkipIn(s1, 1, Digits)                      \* end of integer part
      ip == SubSeq(s1, 1, e1 - 1)
      hasf == e1 <= Len(s1) /\ Ch(s1, e1) = "."
      e2 == IF hasf THEN SkipIn(s1, e1 + 1, Digits) ELSE e1
      fp == IF hasf THEN SubSeq(s1, e1 + 1, e2 - 1) ELSE ""
      hase == e2 < Len(s1) /\ Ch(s1, e2) \in {"e", "E"}
      es == IF hase THEN LET q == From(s1, e2 + 1) IN
                 SubSeq(q, 1, SkipIn(q, IF Ch(q,1) \in {"-","+"} THEN 2 ELSE 1, Digits) - 1) ELSE "0"
      ex == IntOf(es)
      \* value = 0.(ip fp) * 10^(Len(ip)+ex)
      all == ip \o fp
      pt == Len(ip) + ex
      i2 == IF pt <= 0 THEN "" ELSE IF pt <= Len(all) THEN SubSeq(all, 1, pt) ELSE all \o Zeros(pt - Len(all))
      f2 == IF pt <= 0 THEN Zeros(0 - pt) \o all ELSE IF pt < Len(all) THEN From(all, pt + 1) ELSE ""
      ii == StripL(i2)
      ff == StripR(f2)
      z == Len(ff) - Len(StripL(ff))                   \* leading zeros of the fraction
      m == StripL(ff)
      sci == ii = "" /\ m # "" /\ z >= 4              \* printed as d.ddde-XX
      body == IF sci THEN Ch(m, 1) \o (IF Len(m) > 1 THEN "." \o From(m, 2) ELSE "") \o "e-" \o (IF z + 1 < 10 THEN "0" ELSE "") \o ToString(z + 1)
              ELSE (IF ii = "" THEN "0" ELSE ii) \o (IF ff = "" THEN "" ELSE "." \o ff)
  IN IF ip = "" /\ fp = "" THEN "0" ELSE IF neg THEN "-" \o body ELSE body
=============================================================================
