-------------------------------- MODULE JWrite --------------------------------
(* Judges the writing of files (driver "writefile"): what a namespace-aware *)
(* reader sees.                                                              *)
EXTENDS Merge, TraceData
VARIABLES sc, pos, st, ok
StartW(r) == 0
Prefix(n) == LET i == SkipOut(n, 1, {":"}) IN IF i > Len(n) THEN "" ELSE SubSeq(n, 1, i - 1)
Ns(n) == CASE Prefix(n) = "" -> "http://www.opengis.net/kml/2.2"
           [] Prefix(n) = "gx" -> "http://www.google.com/kml/ext/2.2"
           [] Prefix(n) = "atom" -> "http://www.w3.org/2005/Atom"
           [] Prefix(n) = "xal" -> "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"
           [] OTHER -> "?"
RECURSIVE Wrong(_)
Wrong(x) == IF x.n = "#" \/ ~Known(x.n) THEN {} ELSE
   (IF x.u = Ns(x.n) THEN {} ELSE {<<x.n, x.u>>}) \cup (IF x.n \in SimpleTags THEN {} ELSE UNION { Wrong(x.c[i]) : i \in 1..Len(x.c) })
\* without namespaces and namespace declarations
RECURSIVE Plain(_)
Plain(x) == [ n |-> x.n, t |-> x.t, a |-> SelectSeq(x.a, LAMBDA kv : ~IsPrefix("xmlns", kv[1])), c |-> [ i \in 1..Len(x.c) |-> Plain(x.c[i]) ] ]
StepW(r, s, e) ==
  LET want == Plain(Blanked(Norm(e.in, ""))) IN [ s |-> 0, bad |->
    IF ~e.ok THEN <<"not parsed">>
    ELSE IF ~e.ra \/ ~e.rb THEN <<"refused">>
    ELSE IF ~e.streams THEN <<"string and stream differ">>
    ELSE IF ~e.header THEN <<"header">>
    ELSE IF ~e.enc THEN <<"encoding">>
    ELSE IF e.ns.n = "!malformed" THEN <<"not well-formed with namespaces">>
    ELSE IF Clean(Plain(e.ns), TRUE) # want THEN <<"document", want, Clean(Plain(e.ns), TRUE)>>
    ELSE IF Wrong(e.ns) # {} THEN <<"namespace", Wrong(e.ns)>>
    ELSE IF ~e.again THEN <<"second round trip">> ELSE IF ~e.import THEN <<"imported file">> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartW, Step <- StepW
=============================================================================
