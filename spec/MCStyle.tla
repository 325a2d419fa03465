-------------------------------- MODULE MCStyle --------------------------------
(***************************************************************************)
(* All graphs of three shared styles, each a Style or a StyleMap whose two  *)
(* pairs refer to any of them, to a missing one or to nothing, cycles       *)
(* included; a placemark refers to the first.  Following ever more          *)
(* references changes nothing once all are followed, and a resolution that  *)
(* never meets the limit is independent of it.                              *)
(***************************************************************************)
EXTENDS Styles, Json
Ids3 == <<"a", "b", "c">>
Colors == <<"ff000001", "ff000002", "ff000003">>
Refs == {"#a", "#b", "#c", "#zz", ""}
VARIABLES g
El(n, as, c) == [ n |-> n, t |-> "", a |-> as, c |-> c ]
Pair(k, u) == El("Pair", <<>>, <<Leaf("key", k)>> \o (IF u = "" THEN <<>> ELSE <<Leaf("styleUrl", u)>>))
Node(i, v) == IF v[1] = "s" THEN El("Style", <<<<"id", Ids3[i]>>>>, << El("LineStyle", <<>>, <<Leaf("color", Colors[i])>>), El(IF i = 2 THEN "PolyStyle" ELSE "LabelStyle", <<>>, <<Leaf("color", Colors[i])>>) >>)
              ELSE El("StyleMap", <<<<"id", Ids3[i]>>>>, <<Pair("normal", v[2]), Pair("highlight", v[3])>>)
Opts == {<<"s", "", "">>} \cup { <<"m", x, y>> : x \in Refs, y \in Refs }
Mark(x, m) == [x EXCEPT !.a = <<<<"m", m>>>>]
DocOf(v) == El("Document", <<<<"m", "d">>>>, [ i \in 1..3 |-> Node(i, v[i]) ] \o << Mark(El("Placemark", <<>>, <<Leaf("styleUrl", "#a")>>), "p"),
               Mark(El("Placemark", <<>>, <<Leaf("styleUrl", "#b"), El("Style", <<>>, <<El("LineStyle", <<>>, <<Leaf("width", "4")>>)>>)>>), "q") >>)
Init == g = <<>>
Next == IF Len(g) < 3 THEN \E o \in Opts : g' = Append(g, o) ELSE UNCHANGED g
Web == << [ url |-> "http://h.example/d/m.kml", doc |-> DocOf(g) ] >>
P == DocOf(g).c[4]
H(key, n) == ResolveHops(Web, 1, FALSE, P, key, n)
\* refs followed from a in a state
Succ(key, i) == IF g[i][1] = "s" THEN {} ELSE { j \in 1..3 : "#" \o Ids3[j] = (IF key = "normal" THEN g[i][2] ELSE g[i][3]) }
RECURSIVE Chain(_,_,_)
Chain(key, i, n) == IF n = 0 THEN TRUE ELSE \E j \in Succ(key, i) : Chain(key, j, n - 1)
Acyclic(key) == ~Chain(key, 1, 3)
Inv == Len(g) = 3 => \A key \in {"normal", "highlight"} :
         /\ Acyclic(key) => H(key, 5) = H(key, 9)
         /\ ~Acyclic(key) => H(key, 5).c = <<>>      \* a cycle of maps contributes nothing
         /\ (g[1][1] = "s") => H(key, 5).c = Norm(DocOf(g).c[1], "Document").c
Emit == Len(g) = 3 => PrintT("BEH " \o ToJson(DocOf(g)))
=============================================================================
