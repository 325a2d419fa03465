----------------------------------- MODULE Colors -----------------------------------
(***************************************************************************)
(* A colour is its four bytes <<alpha, blue, green, red>>, in the order of  *)
(* KML.  Its text is eight hexadecimal digits, after white space and #;     *)
(* fewer digits are the low end of the value.                               *)
(***************************************************************************)
EXTENDS Text, TLC
HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexVal(c) == LET h == { i \in 1..16 : HexDigits[i] = Lower(c) } IN IF h = {} THEN 0 ELSE (CHOOSE i \in h : TRUE) - 1
Hex(b) == HexDigits[(b \div 16) + 1] \o HexDigits[(b % 16) + 1]
OfText(s) ==
  LET p == SkipIn(s, 1, {" ", "\t", "\n", "\r"})
      q == IF p <= Len(s) /\ Ch(s, p) = "#" THEN p + 1 ELSE p
      n == IF Len(s) - q + 1 > 8 THEN 8 ELSE Len(s) - q + 1
      d(k) == IF k > 8 - n THEN HexVal(Ch(s, q + k - (8 - n) - 1)) ELSE 0        \* the kth of eight digits
  IN <<16 * d(1) + d(2), 16 * d(3) + d(4), 16 * d(5) + d(6), 16 * d(7) + d(8)>>
Swap(c) == <<c[1], c[4], c[3], c[2]>>
TextOfColor(c) == Hex(c[1]) \o Hex(c[2]) \o Hex(c[3]) \o Hex(c[4])
Less(c, d) == \E i \in 1..4 : c[i] < d[i] /\ \A j \in 1..(i - 1) : c[j] = d[j]
CStep(c, o) ==
  CASE o[1] \in {"text", "newtext"} -> OfText(o[2])
    [] o[1] \in {"abgr", "assign", "assigni", "new", "newi", "four", "setfour"} -> o[2]
    [] o[1] = "argb" -> Swap(o[2])
    [] o[1] = "a" -> [c EXCEPT ![1] = o[2]] [] o[1] = "b" -> [c EXCEPT ![2] = o[2]] [] o[1] = "g" -> [c EXCEPT ![3] = o[2]] [] o[1] = "r" -> [c EXCEPT ![4] = o[2]]
=============================================================================
