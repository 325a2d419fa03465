---------------------------------- MODULE MCCsv ----------------------------------
(* Every text over a small alphabet: a quoted value is read back as it is,    *)
(* columns never contain a line end, and each text is a scenario.             *)
EXTENDS Csv, Json
CONSTANT Max
VARIABLE t
Alphabet == {"a", ",", "\"", " ", LF}
Init == t = ""
Next == Len(t) < Max /\ \E c \in Alphabet : t' = t \o c
Spec == Init /\ [][Next]_t
RECURSIVE Doubled(_)
Doubled(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "\"" THEN "\"\"" ELSE Ch(s, 1)) \o Doubled(From(s, 2))
Quoted(s) == "\"" \o Doubled(s) \o "\""
OneLine(s) == \A i \in 1..Len(s) : Ch(s, i) \notin Eol
RoundTrip == OneLine(t) => /\ Cols(Quoted(t), ",") = <<t>>
                           /\ Cols(Quoted(t) \o "," \o Quoted(t) \o ",x", ",") = <<t, t, "x">>
                           /\ Cols(" " \o Quoted(t) \o " ,", ",") = <<t, "">>
NoEol == LET b == Table(t) IN \A i \in 1..Len(b) : \A j \in 1..Len(b[i]) : OneLine(b[i][j])
Commas(s) == Cardinality({ i \in 1..Len(s) : Ch(s, i) = "," })
\* without quotes there is one column more than there are commas
Count == (OneLine(t) /\ t # "" /\ ~Contains(t, "\"")) => Len(Cols(t, ",")) = Commas(t) + 1
Emit == PrintT("BEH " \o ToJson(t))
=============================================================================
