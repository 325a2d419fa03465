-------------------------------- MODULE Coords --------------------------------
(***************************************************************************)
(* Coordinate text: a list of lon,lat[,alt] tuples separated by white      *)
(* space, with white space allowed around the commas.  Points(txt) is the  *)
(* list of points, numbers in canonical decimal form.                      *)
(***************************************************************************)
EXTENDS Text
\* drop the white space next to commas
RECURSIVE Glue(_,_,_)
Glue(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF Ch(s, i) = "," THEN Glue(s, SkipIn(s, i + 1, Ws), RTrim(acc) \o ",")
  ELSE Glue(s, i + 1, acc \o Ch(s, i))
TuplePt(tok) == LET ps == Split(tok, 1, ",") IN
   << CanonNum(ps[1]), CanonNum(IF Len(ps) > 1 THEN ps[2] ELSE "0"), CanonNum(IF Len(ps) > 2 THEN ps[3] ELSE "0") >>
Points(txt) == LET ts == Tokens(Glue(txt, 1, ""), 1, Ws) IN [ i \in 1..Len(ts) |-> TuplePt(ts[i]) ]
\* gx:coord and gx:angles: three numbers between white space
Triple(txt) == LET ts == Tokens(txt, 1, Ws) IN [ i \in 1..3 |-> IF i <= Len(ts) THEN CanonNum(ts[i]) ELSE "0" ]
\* a writer
PtText(p) == p[1] \o "," \o p[2] \o "," \o p[3]
Raw(ps) == Join([ i \in 1..Len(ps) |-> PtText(ps[i]) ], LF)
Pretty(ps) == "\n  " \o Join([ i \in 1..Len(ps) |-> PtText(ps[i]) ], "\n  ") \o "\n"
=============================================================================
