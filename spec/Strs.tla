------------------------------------ MODULE Strs ------------------------------------
(* What the text helpers answer. *)
EXTENDS Text
RECURSIVE Pieces(_,_)
Pieces(s, p) == LET i == IF p = "" THEN 0 ELSE Find(s, p, 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Pieces(From(s, i + Len(p)), p)
Ends(s, e) == s # "" /\ e # "" /\ EndsWith(s, e)
SameText(a, b) == LowerS(a) = LowerS(b)
\* starts with [-][.]digit
Numeric(s) == LET a == IF IsPrefix("-", s) THEN From(s, 2) ELSE s b == IF IsPrefix(".", a) THEN From(a, 2) ELSE a IN b # "" /\ IsDigit(Ch(b, 1))
Truth(s) == LET t == LTrim(s) IN IsPrefix("true", t) \/ IsPrefix("1", t)
WholeOf(s) == LET t == LTrim(s) neg == IsPrefix("-", t) a == IF neg \/ IsPrefix("+", t) THEN From(t, 2) ELSE t n == NatOf(SubSeq(a, 1, SkipIn(a, 1, Digits) - 1), 0) IN IF neg THEN 0 - n ELSE n
\* every reference to a key between the marks is replaced by its value, values are not looked at again
RECURSIVE Expand(_,_,_,_)
Expand(s, m, b, e) ==
  LET i == Find(s, b, 1) IN
  IF i = 0 THEN s
  ELSE LET k == { j \in 1..Len(m) : IsPrefix(b \o m[j][1] \o e, From(s, i)) } IN
       IF k = {} THEN SubSeq(s, 1, i) \o Expand(From(s, i + 1), m, b, e)
       ELSE LET j == CHOOSE j \in k : TRUE IN SubSeq(s, 1, i - 1) \o m[j][2] \o Expand(From(s, i + Len(b) + Len(m[j][1]) + Len(e)), m, b, e)
Hex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Byte(n) == Hex[((n \div 16) % 16) + 1] \o Hex[(n % 16) + 1]
=============================================================================
