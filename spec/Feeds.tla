----------------------------------- MODULE Feeds -----------------------------------
(***************************************************************************)
(* Atom feeds of KML features, and the sessions of an HTTP client with the  *)
(* Google data services.  A feed is [links, cats, entries]; a link is       *)
(* <<rel, type, href>>, a category <<scheme, term>>, an entry               *)
(* [title, links, cats, src, res, f] with src and res <<>> or <<text>> and f *)
(* the number of the element in its content (0 for none).                   *)
(***************************************************************************)
EXTENDS Build
Ends(s, t) == s # "" /\ t # "" /\ EndsWith(s, t)
FirstOf(q) == IF q = <<>> THEN <<>> ELSE <<q[1]>>
RelUrl(links, rel) == LET q == SelectSeq(links, LAMBDA l : l[3] # "(none)" /\ Ends(l[1], rel)) IN IF q = <<>> THEN <<>> ELSE <<q[1][3]>>
LinkOf(links, rel, ty) == LET q == SelectSeq(links, LAMBDA l : Ends(l[1], rel) /\ l[2] = ty) IN IF q = <<>> THEN <<>> ELSE <<q[1][3]>>
Category(cats, s) == LET q == SelectSeq(cats, LAMBDA c : c[1] # "(none)" /\ Ends(c[1], s)) IN IF q = <<>> THEN <<>> ELSE <<q[1][2]>>
Titled(feed, t) == LET h == { i \in 1..Len(feed.entries) : feed.entries[i].title = t } IN IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : i <= j
\* the feature of an entry: what its content begins with, if that is a feature
FeatureIn(en, kml) == IF en.f = 0 \/ kml[en.f].n \notin Features THEN <<>> ELSE <<Norm(kml[en.f], "")>>
AtomLink(h) == BEl("atom:link", <<<<"href", h>>>>, <<>>)
Linked(x, links) == LET h == RelUrl(links, "self") IN IF h = <<>> THEN x ELSE Norm([x EXCEPT !.c = SelectSeq(@, LAMBDA k : k.n # "atom:link") \o <<AtomLink(h[1])>>], "")
ClonesIn(feed, kml) == Concat([ i \in 1..Len(feed.entries) |-> LET f == FeatureIn(feed.entries[i], kml) IN IF f = <<>> THEN <<>> ELSE <<Linked(f[1], feed.entries[i].links)>> ])
FeaturesIn(feed, kml) == Concat([ i \in 1..Len(feed.entries) |-> FeatureIn(feed.entries[i], kml) ])
UpToSlash(s) == LET h == { i \in 1..Len(s) : Ch(s, i) = "/" } IN IF h = {} THEN <<>> ELSE <<SubSeq(s, 1, CHOOSE i \in h : \A j \in h : j <= i)>>
SearchUri(en) == IF en.src = <<>> THEN <<>> ELSE LET p == UpToSlash(en.src[1]) IN IF p = <<>> THEN <<>> ELSE <<p[1] \o "snippet">>
KmlUri(en) == LET a == RelUrl(en.links, "alternate") IN IF a = <<>> THEN <<>> ELSE <<a[1] \o "&output=kml">>
(* ---- posting ---- *)
FieldOf(x, n) == LET q == SelectSeq(x.c, LAMBDA k : k.n = n) IN IF q = <<>> THEN "" ELSE TextOf(q[1].c)
AtomMime == "application/atom+xml"
KmlMime == "application/vnd.google-earth.kml+xml"
EntryTree(title, summary, kids) == Norm(BEl("atom:entry", <<>>, <<Leaf("atom:title", title), Leaf("atom:summary", summary)>> \o kids), "")
EntryFor(x, attrs) == EntryTree(FieldOf(x, "name"), FieldOf(x, "description"), <<BEl("atom:content", attrs, <<x>>)>>)
IsNode(x) == x.n # "#" /\ x.n \notin SimpleTags /\ Known(x.n)
RECURSIVE IdsIn(_,_)
IdsIn(x, par) == IF ~IsNode(x) THEN <<>> ELSE
  LET ty == TypeOf(x.n, par) q == SelectSeq(x.a, LAMBDA p : p[1] = "id") IN
  (IF q = <<>> \/ ~(ty \in Objects \/ ty = "IconStyleIcon") THEN <<>> ELSE <<q[1][2]>>) \o Concat([ i \in 1..Len(x.c) |-> IdsIn(x.c[i], ty) ])
Duplicates(x) == LET q == IdsIn(x, "") IN \E i, j \in 1..Len(q) : i # j /\ q[i] = q[j]
RECURSIVE MarksIn(_)
MarksIn(x) == IF ~IsNode(x) THEN <<>> ELSE (IF x.n = "Placemark" THEN <<x>> ELSE <<>>) \o Concat([ i \in 1..Len(x.c) |-> MarksIn(x.c[i]) ])
HasGeometry(x) == \E i \in 1..Len(x.c) : x.c[i].n \in Geometry
ToPost(x) == IF x.n = "Placemark" THEN <<x>> ELSE SelectSeq(MarksIn(x), HasGeometry)
(* ---- the session: headers sent with each request, in order ---- *)
Service == [ maps |-> <<"2.0", "http://maps.google.com", "/maps/feeds/maps/default/full">>, docs |-> <<"3.0", "http://docs.google.com", "/feeds/default/private/full">>,
             pic |-> <<"2", "http://picasaweb.google.com", "/data/feed/api/user/default">>, sheets |-> <<"3.0", "http://spreadsheets.google.com", "/feeds/spreadsheets/private/full">> ]
Agent(app) == <<"User-Agent", app \o " GData-C++/1.0">>
Session(app, svc) == <<Agent(app)>> \o (IF svc = "none" THEN <<>> ELSE <<<<"GData-Version", Service[svc][1]>>>>)
Methods == <<"OPTIONS", "GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "CONNECT">>
LoginUrl == "https://www.google.com/accounts/ClientLogin"
LoginData(app, o) == "Email=" \o o[3] \o "&Passwd=" \o o[4] \o "&accountType=HOSTED_OR_GOOGLE&source=" \o app \o "&service=" \o o[2]
\* the answer of the network to a request: <<did it succeed, body, number of the feed it holds>>
Answer(web, uri) == LET q == SelectSeq(web, LAMBDA w : w[1] = uri) IN IF q = <<>> THEN <<FALSE, "", 0>> ELSE <<q[1][2], q[1][3], q[1][4]>>
\* the feeds found by following next from a uri, at most n, and the uris asked for
RECURSIVE Pages(_,_,_,_)
Pages(web, feeds, uri, n) ==
  LET a == Answer(web, uri) IN
  IF n = 0 THEN [ feeds |-> <<>>, uris |-> <<>> ]
  ELSE IF ~a[1] \/ a[3] <= 0 THEN [ feeds |-> <<>>, uris |-> <<uri>> ]
  ELSE LET nx == RelUrl(feeds[a[3]].links, "next") IN
       IF nx = <<>> THEN [ feeds |-> <<a[3]>>, uris |-> <<uri>> ]
       ELSE LET p == Pages(web, feeds, nx[1], n - 1) IN [ feeds |-> <<a[3]>> \o p.feeds, uris |-> <<uri>> \o p.uris ]
=============================================================================
