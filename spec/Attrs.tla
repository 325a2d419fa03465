----------------------------------- MODULE Attrs -----------------------------------
(***************************************************************************)
(* Attribute lists: partial functions from names to text.  Three lists and  *)
(* the operations on them.                                                  *)
(***************************************************************************)
EXTENDS KmlDom
RECURSIVE OfPairs(_)
OfPairs(p) == IF Len(p) < 2 THEN <<>> ELSE LET r == OfPairs(SubSeq(p, 1, 2 * ((Len(p) \div 2) - 1))) k == 2 * (Len(p) \div 2) IN (p[k - 1] :> p[k]) @@ r
Without(a, n) == [ x \in DOMAIN a \ {n} |-> a[x] ]
Prefixed(a, p) == { n \in DOMAIN a : IsPrefix(p \o ":", n) }
Strip(n, p) == From(n, Len(p) + 2)
SplitOut(a, p) == [ x \in { Strip(n, p) : n \in Prefixed(a, p) } |-> a[p \o ":" \o x] ]
Keep(a, p) == [ x \in DOMAIN a \ Prefixed(a, p) |-> a[x] ]
\* a value as another type: the number a text begins with
NumIn(t) == LET u == From(t, SkipIn(t, 1, Ws)) neg == u # "" /\ Ch(u, 1) = "-" sg == u # "" /\ Ch(u, 1) \in {"-", "+"} v == IF sg THEN From(u, 2) ELSE u d == SubSeq(v, 1, SkipIn(v, 1, Digits) - 1)
            IN IF d = "" THEN "0" ELSE LET q == NatOf(d, 0) IN (IF neg /\ q # 0 THEN "-" ELSE "") \o ToString(q)
BoolOf(t) == LET u == From(t, SkipIn(t, 1, Ws)) IN IF IsPrefix("true", u) \/ IsPrefix("1", u) THEN "1" ELSE "0"
As(t, k) == CASE k = "str" -> t [] k = "int" -> NumIn(t) [] k = "bool" -> BoolOf(t) [] k = "dbl" -> t [] OTHER -> "-"
\* an operation on the three lists: new lists, found or done, value ("-": none)
AStep(s, o) ==
  LET w == o[2] + 1 a == s[w] out(t, k, v) == [ s |-> t, ok |-> k, val |-> v ] IN
  CASE o[1] \in {"create", "createv"} -> out([s EXCEPT ![w] = OfPairs(o[3])], TRUE, "-")
    [] o[1] = "set" -> out([s EXCEPT ![w] = (o[3] :> o[5]) @@ @], FALSE, "-")
    [] o[1] = "get" -> IF o[3] \in DOMAIN a THEN out(s, TRUE, As(a[o[3]], o[4])) ELSE out(s, FALSE, "-")
    [] o[1] = "cut" -> IF o[3] \in DOMAIN a THEN out([s EXCEPT ![w] = Without(@, o[3])], TRUE, As(a[o[3]], o[4])) ELSE out(s, FALSE, "-")
    [] o[1] = "find" -> IF o[3] \in DOMAIN a THEN out(s, TRUE, a[o[3]]) ELSE out(s, FALSE, "-")
    [] o[1] = "key" -> out(s, \E n \in DOMAIN a : a[n] = o[3], "?")
    [] o[1] = "merge" -> out([s EXCEPT ![w] = s[o[3] + 1] @@ @], FALSE, "-")
    [] o[1] = "clone" -> out([s EXCEPT ![w] = s[o[3] + 1]], TRUE, "-")
    [] o[1] = "xmlns" -> LET d == IF "xmlns" \in DOMAIN a THEN a["xmlns"] ELSE "" h == d # "" \/ Prefixed(a, "xmlns") # {} IN out(s, h, IF h THEN d ELSE "-")
    [] o[1] = "split" -> IF Prefixed(a, o[3]) = {} THEN out(s, FALSE, "-") ELSE out([[s EXCEPT ![w] = Keep(@, o[3])] EXCEPT ![o[4] + 1] = SplitOut(a, o[3])], TRUE, "-")
\* the namespaces the library knows, by their usual prefix
KnownNs == { <<"app", "http://www.w3.org/2007/app">>, <<"atom", "http://www.w3.org/2005/Atom">>, <<"batch", "http://schemas.google.com/gdata/batch">>,
  <<"docs", "http://schemas.google.com/docs/2007">>, <<"exif", "http://schemas.google.com/photos/exif/2007">>, <<"gd", "http://schemas.google.com/g/2005">>,
  <<"georss", "http://www.georss.org/georss">>, <<"gml", "http://www.opengis.net/gml">>, <<"gphoto", "http://schemas.google.com/photos/2007">>,
  <<"gpx", "http://www.topografix.com/GPX/1/0">>, <<"gx", "http://www.google.com/kml/ext/2.2">>, <<"gs", "http://schemas.google.com/spreadsheets/2006">>,
  <<"kml", "http://www.opengis.net/kml/2.2">>, <<"media", "http://search.yahoo.com/mrss/">>, <<"openSearch", "http://a9.com/-/spec/opensearch/1.1/">>,
  <<"xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0">>, <<"xml", "http://www.w3.org/XML/1998/namespace">>, <<"xsd", "http://www.w3.org/2001/XMLSchema">>,
  <<"xsi", "http://www.w3.org/2001/XMLSchema-instance">> }
=============================================================================
