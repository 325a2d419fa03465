---------------------------------- MODULE MCBuild ----------------------------------
(* Every short history of the values of a feature, and of a line of points.  *)
EXTENDS Build, Json
CONSTANT N
VARIABLES xd, h
Init == xd = <<>> /\ h = <<>>
Ops == { <<k, n, v>> : k \in {"add", "set"}, n \in {"a", "b"}, v \in {"1", "2"} } \cup { <<"clear">>, <<"score", "7">>, <<"add", ScoreName, "9">>, <<"nothing">> }
Next == Len(h) < N /\ \E o \in Ops : xd' = XStep(xd, o) /\ h' = Append(h, o)
View == xd
\* what was set is what is got, and it is the only value there
SetGet == \A n \in {"a", "b"} : \A v \in {"1", "2"} : LET s == XStep(xd, <<"set", n, v>>) IN GetV(s, n) = <<v>> /\ Len(s[1]) = 1
\* what was got first is got still after more is added
AddKeeps == \A n \in {"a", "b"} : \A v \in {"1", "2"} : LET s == XStep(xd, <<"add", n, v>>) IN GetV(s, n) = (IF GetV(xd, n) = <<>> THEN <<v>> ELSE GetV(xd, n))
Emit == PrintT("BEH " \o ToJson(h))
Lines == [ 1..N -> {1, 2} \X {"", "0", "3", "5", "9"} ]
ASSUME \A p \in Lines : LET s == Simplified(p, 4) IN Simplified(p, 0) = p /\ s # <<>> /\ s[1] = p[1] /\ Len(s) <= N
=============================================================================
