---------------------------------- MODULE Csv ----------------------------------
(***************************************************************************)
(* CSV data: lines, columns, and the placemark a row stands for.           *)
(***************************************************************************)
EXTENDS KmlDom
Eol == {LF, CR}
Sp == {" ", HT}
\* records are separated by runs of line ends; one at the end of the data starts none
RECURSIVE Records(_)
Records(s) == LET e == SkipOut(s, 1, Eol) n == SkipIn(s, e, Eol) IN <<SubSeq(s, 1, e - 1)>> \o (IF n > Len(s) THEN <<>> ELSE Records(From(s, n)))
RTrimIn(s, cs) == LET last == { i \in 1..Len(s) : Ch(s, i) \notin cs } IN IF last = {} THEN "" ELSE SubSeq(s, 1, MaxOf(last))
\* the text of a quoted value that starts at i, and the position after its closing quote
RECURSIVE Unquote(_,_)
Unquote(s, i) == IF i > Len(s) THEN [ v |-> "", at |-> i ]
  ELSE IF Ch(s, i) # "\"" THEN LET u == Unquote(s, i + 1) IN [ v |-> Ch(s, i) \o u.v, at |-> u.at ]
  ELSE IF i < Len(s) /\ Ch(s, i + 1) = "\"" THEN LET u == Unquote(s, i + 2) IN [ v |-> "\"" \o u.v, at |-> u.at ]
  ELSE [ v |-> "", at |-> i + 1 ]
RECURSIVE ColsFrom(_,_)
ColsFrom(s, d) ==
  LET b == SkipIn(s, 1, Sp \ {d})
      q == d = "," /\ b <= Len(s) /\ Ch(s, b) = "\""
      u == Unquote(s, b + 1)
      e == SkipOut(s, IF q THEN u.at ELSE b, {d})
      v == IF q THEN u.v ELSE RTrimIn(SubSeq(s, b, e - 1), Sp \ {d})
  IN <<v>> \o (IF e > Len(s) THEN <<>> ELSE ColsFrom(From(s, e + 1), d))
Cols(line, d) == IF line = "" THEN <<>> ELSE ColsFrom(line, d)
Table(s) == LET r == Records(s) IN [ i \in 1..Len(r) |-> Cols(r[i], ",") ]
\* plain splitting at a separator
RECURSIVE SplitAt(_,_)
SplitAt(s, p) == LET i == Find(s, p, 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitAt(From(s, i + Len(p)), p)
(* ---- rows ---- *)
Roles == {"name", "description", "latitude", "longitude", "feature-id", "style-id"}
Role(h) == LET l == LowerS(h) IN IF l \in Roles THEN l ELSE ""
ColOf(hd, role) == LET h == { i \in 1..Len(hd) : Role(hd[i]) = role } IN IF h = {} THEN 0 ELSE MaxOf(h)
\* a number is [-]digits with a fraction and an exponent; what follows it is ignored
IsNum(s) ==
  LET a == IF IsPrefix("-", s) THEN From(s, 2) ELSE s
      i == SkipIn(a, 1, Digits)
      f == IF i <= Len(a) /\ Ch(a, i) = "." THEN SkipIn(a, i + 1, Digits) ELSE i
      e == f <= Len(a) /\ Ch(a, f) \in {"e", "E"}
      g == IF e /\ f < Len(a) /\ Ch(a, f + 1) \in {"+", "-"} THEN f + 2 ELSE f + 1
  IN /\ (i > 1 \/ (IsPrefix(".", a) /\ f > 2))
     /\ (e => (g <= Len(a) /\ Ch(a, g) \in Digits))
HeaderStatus(hd) == IF hd = <<>> THEN "blank" ELSE IF ColOf(hd, "latitude") = 0 \/ ColOf(hd, "longitude") = 0 THEN "nolatlon" ELSE "ok"
RowStatus(hd, row) ==
  IF row # <<>> /\ IsPrefix("#", row[1]) THEN "comment"
  ELSE IF Len(row) # Len(hd) THEN "invalid"
  ELSE IF ~IsNum(row[ColOf(hd, "latitude")]) \/ ~IsNum(row[ColOf(hd, "longitude")]) THEN "badlatlon" ELSE "ok"
El(n, a, c) == [ n |-> n, t |-> "", a |-> a, c |-> c ]
Opt(hd, row, role, tag, pre) == LET i == ColOf(hd, role) IN IF i = 0 \/ (pre # "" /\ row[i] = "") THEN <<>> ELSE <<Leaf(tag, pre \o row[i])>>
Mark(hd, row) ==
  LET id == ColOf(hd, "feature-id")
      ex == SelectSeq([ i \in 1..Len(hd) |-> i ], LAMBDA i : Role(hd[i]) = "")
      data == [ k \in 1..Len(ex) |-> El("Data", <<<<"name", hd[ex[k]]>>>>, <<Leaf("value", row[ex[k]])>>) ]
  IN El("Placemark", IF id = 0 \/ row[id] = "" THEN <<>> ELSE <<<<"id", "feature-" \o row[id]>>>>,
        Opt(hd, row, "name", "name", "") \o Opt(hd, row, "description", "description", "") \o Opt(hd, row, "style-id", "styleUrl", "style.kml#style-")
        \o (IF data = <<>> THEN <<>> ELSE <<El("ExtendedData", <<>>, data)>>)
        \o <<El("Point", <<>>, <<Leaf("coordinates", CanonNum(row[ColOf(hd, "longitude")]) \o "," \o CanonNum(row[ColOf(hd, "latitude")]) \o ",0")>>)>>)
\* what the handler is told of row i of the table (1 is the header)
Told(tab, i) == LET hd == tab[1] IN
  IF i = 1 THEN [ line |-> 1, status |-> HeaderStatus(hd), p |-> El("none", <<>>, <<>>) ]
  ELSE LET s == RowStatus(hd, tab[i]) IN [ line |-> i, status |-> s, p |-> IF s = "ok" THEN Mark(hd, tab[i]) ELSE El("Placemark", <<>>, <<>>) ]
AllTold(tab) == IF HeaderStatus(tab[1]) # "ok" THEN <<Told(tab, 1)>> ELSE [ i \in 1..(Len(tab) - 1) |-> Told(tab, i + 1) ]
(* ---- the older form: score|latitude|longitude|name|description[|style] per line ---- *)
OldCoord(s) == IF IsNum(s) THEN CanonNum(s) ELSE "0"
OldMark(q) == El("Placemark", <<>>, <<Leaf("name", q[4]), Leaf("description", q[5])>> \o (IF Len(q) > 5 THEN <<Leaf("styleUrl", q[6])>> ELSE <<>>)
  \o <<El("ExtendedData", <<>>, <<El("Data", <<<<"name", "kml.FeatureScore">>>>, <<Leaf("value", q[1])>>)>>),
       El("Point", <<>>, <<Leaf("coordinates", OldCoord(q[3]) \o "," \o OldCoord(q[2]) \o ",0")>>)>>)
OldMarks(lines) == LET q == SelectSeq([ i \in 1..Len(lines) |-> SplitAt(lines[i], "|") ], LAMBDA p : Len(p) >= 5) IN [ i \in 1..Len(q) |-> OldMark(q[i]) ]
=============================================================================
