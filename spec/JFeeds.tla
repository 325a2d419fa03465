---------------------------------- MODULE JFeeds ----------------------------------
(* Judges feeds (driver "feed") and sessions with the services (driver        *)
(* "gdata").                                                                   *)
EXTENDS Feeds, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == IF "svc" \in DOMAIN r THEN Session(r.app, r.svc) ELSE <<>>
NonE == BEl("none", <<>>, <<>>)
Opt1(q, none) == IF q = <<>> THEN none ELSE q[1]
StepFeed(r, e) ==
  LET o == e.op f == r.feed
      all == o[1] \in {"none", "features", "mapkml", "title"}
      n == IF all THEN 0 ELSE o[2]
      en == IF n = 0 THEN [ title |-> "", links |-> f.links, cats |-> f.cats, src |-> <<>>, res |-> <<>>, f |-> 0 ] ELSE f.entries[n]
      got == Clean(e.tree, FALSE)
      val(q) == IF e.ok # (q # <<>>) \/ e.v # Opt1(q, "-") THEN <<"value", q, e>> ELSE <<>>
      tree(w) == IF e.ok # (w # NonE) \/ got # w THEN <<"feature", w, got>> ELSE IF e.v # "-" THEN <<"differs", e>> ELSE <<>>
  IN IF ~e.same THEN <<"the feed changed", o>>
     ELSE CASE o[1] = "none" -> <<"not a feed">>
       [] o[1] = "features" -> LET w == Norm(Linked(BEl("Document", <<>>, ClonesIn(f, r.kml)), f.links), "") IN IF got # w THEN <<"features", w, got>> ELSE <<>>
       [] o[1] = "mapkml" -> LET q == FeaturesIn(f, r.kml) IN IF ~e.ok \/ e.n # Len(q) \/ got # Norm(BEl("Folder", <<>>, q), "") THEN <<"map", q, got>> ELSE <<>>
       [] o[1] = "rel" -> val(RelUrl(en.links, o[3]))
       [] o[1] = "link" -> val(LinkOf(en.links, o[3], o[4]))
       [] o[1] = "cat" -> val(Category(en.cats, o[3]))
       [] o[1] = "title" -> IF e.n # Titled(f, o[2]) THEN <<"title", e>> ELSE <<>>
       [] o[1] = "src" -> val(en.src)
       [] o[1] = "search" -> val(SearchUri(en))
       [] o[1] = "kmluri" -> val(KmlUri(en))
       [] o[1] = "res" -> val(en.res)
       [] o[1] = "feature" -> tree(Opt1(FeatureIn(en, r.kml), NonE))
       [] o[1] = "clone" -> LET q == FeatureIn(en, r.kml) IN IF q # <<>> /\ e.n # 1 THEN <<"not to be added", e>> ELSE tree(IF q = <<>> THEN NonE ELSE Linked(q[1], en.links))
       [] o[1] = "entry" -> LET x == Norm(e.tree2, "") IN IF ~e.ok \/ e.v # "-" \/ got # EntryFor(x, <<>>) THEN <<"entry", EntryFor(x, <<>>), got>> ELSE <<>>
       [] o[1] = "basic" -> IF got # EntryTree(o[3], o[4], <<>>) \/ Clean(e.tree2, FALSE) # Norm(BEl("atom:link", <<<<"href", o[3]>>, <<"rel", o[4]>>, <<"type", o[5]>>>>, <<>>), "") THEN <<"basic", e>> ELSE <<>>
(* ---- sessions ---- *)
NoNs(x) == [x EXCEPT !.a = SelectSeq(@, LAMBDA p : ~IsPrefix("xmlns", p[1]))]
Req(m, uri, h, d) == [ m |-> m, uri |-> uri, h |-> h, d |-> d ]
Get(uri) == Req(2, uri, <<>>, "-")
Plain(q) == [ i \in 1..Len(q) |-> [ m |-> q[i].m, uri |-> q[i].uri, h |-> q[i].h, d |-> q[i].d ] ]
\* posts of an entry: everything but the text, and the document it holds
Posts(q) == [ i \in 1..Len(q) |-> <<q[i].m, q[i].uri, q[i].h, Clean(NoNs(q[i].x), TRUE)>> ]
Posted(uri, w) == <<4, uri, <<<<"Content-Type", AtomMime>>>>, Blanked(w)>>
StepData(r, s, e) ==
  LET o == e.op
      meta == IF r.svc = "none" THEN "" ELSE Service[r.svc][2] \o Service[r.svc][3]
      ans(u) == Answer(r.web, u)
      got == Clean(e.tree, FALSE)
      asks(q) == IF Plain(e.req) # q THEN <<"requests", q, Plain(e.req)>> ELSE <<>>
      both(a, b) == IF a # <<>> THEN a ELSE b
      body(u, a) == IF e.ok # a[1] \/ e.v # a[2] THEN <<"answer", u, e>> ELSE <<>>
      feed(u) == both(asks(<<Get(u)>>), LET a == ans(u) IN IF e.ok # (a[1] /\ a[3] > 0) THEN <<"feed", a, e>> ELSE IF e.ok /\ e.n # Len(r.feeds[a[3]].entries) THEN <<"entries", e.n>> ELSE <<>>)
      sent(x, uri) == IF Duplicates(x) THEN <<>> ELSE <<Posted(uri, EntryFor(x, <<<<"type", KmlMime>>>>))>>
      bad ==
        CASE o[1] = "add" -> asks(<<>>)
          [] o[1] = "login" -> LET a == ans(LoginUrl) p == Find(a[2], "Auth=", 1)
                                   t == IF a[1] /\ p > 0 THEN <<SubSeq(a[2], p + 5, SkipOut(a[2], p + 5, {"\n"}) - 1)>> ELSE <<>>
                               IN both(asks(<<Req(4, LoginUrl, <<>>, LoginData(r.app, o))>>), IF e.ok # (t # <<>>) \/ (t # <<>> /\ e.v # t[1]) THEN <<"login", t, e>> ELSE <<>>)
          [] o[1] = "fetch" -> both(asks(<<Get(o[2])>>), body(o[2], ans(o[2])))
          [] o[1] = "echo" -> LET h == o[4]
                                  own == SelectSeq([ i \in 1..Len(h) |-> <<h[i], i>> ], LAMBDA p : p[2] % 2 = 0)
                                  ext == SelectSeq([ i \in 1..Len(h) |-> <<h[i], i>> ], LAMBDA p : p[2] % 2 = 1)
                                  line(p) == p[1][1] \o ": " \o p[1][2] \o "\n"
                                  RECURSIVE J(_) J(q) == IF q = <<>> THEN "" ELSE line(q[1]) \o J(Tail(q))
                                  a == SelectSeq(ext, LAMBDA p : p[1][1] = "A")
                                  w == Methods[o[3]] \o " http://h/x\n" \o "User-Agent: " \o o[2] \o " GData-C++/1.0\n" \o J(own) \o J(ext) \o "|" \o (IF a = <<>> THEN "-" ELSE a[1][1][2])
                              IN IF ~e.ok \/ e.v # w \/ e.n # (IF a = <<>> THEN 0 ELSE 1) THEN <<"echo", w, e>> ELSE <<>>
          [] o[1] = "meta" -> feed(meta)
          [] o[1] = "metaxml" -> both(asks(<<Get(meta)>>), body(meta, ans(meta)))
          [] o[1] = "feed" -> feed(o[2])
          [] o[1] = "next" -> LET p == Pages(r.web, r.feeds, o[2], 20) IN both(asks([ i \in 1..Len(p.uris) |-> Get(p.uris[i]) ]), IF e.n # Len(p.feeds) THEN <<"pages", p, e.n>> ELSE <<>>)
          [] o[1] = "doc" -> LET p == Pages(r.web, r.feeds, o[2], 20)
                                 q == Concat([ i \in 1..Len(p.feeds) |-> FeaturesIn(r.feeds[p.feeds[i]], r.kml) ])
                             IN both(asks([ i \in 1..Len(p.uris) |-> Get(p.uris[i]) ]), IF e.ok # (p.feeds # <<>>) THEN <<"document", e.ok>> ELSE IF e.ok /\ got # Norm(BEl("Document", <<>>, q), "") THEN <<"document", q, got>> ELSE <<>>)
          [] o[1] = "createmap" -> LET w == <<Posted(meta, EntryTree(o[2], o[3], <<>>))>> IN IF Posts(e.req) # w THEN <<"posted", w, Posts(e.req)>> ELSE body(meta, ans(meta))
          [] o[1] = "addfeature" -> LET x == Norm(e.tree2, "") w == sent(x, o[2]) IN IF Posts(e.req) # w THEN <<"posted", w, Posts(e.req)>> ELSE IF w = <<>> THEN (IF e.ok THEN <<"answer", e>> ELSE <<>>) ELSE body(o[2], ans(o[2]))
          [] o[1] = "post" -> LET q == ToPost(Norm(e.tree2, "")) w == Concat([ i \in 1..Len(q) |-> sent(q[i], o[2]) ]) IN
                IF Posts(e.req) # w THEN <<"posted", w, Posts(e.req)>> ELSE IF e.v # "" THEN <<"feature changed", e>> ELSE IF e.n # (IF ans(o[2])[1] THEN Len(w) ELSE 0) THEN <<"count", e.n>> ELSE <<>>
          [] o[1] \in {"csv", "kml"} -> LET a == ans(meta) IN both(asks(<<Req(4, meta, <<<<"Content-Type", IF o[1] = "csv" THEN "text/csv" ELSE KmlMime>>, <<"Slug", o[2]>>>>, o[3])>>), IF e.ok # (a[1] /\ a[3] < 0) \/ (o[1] = "csv" /\ a[1] /\ e.v # a[2]) THEN <<"media", e>> ELSE <<>>)
          [] o[1] = "box" -> LET u == r.search \o "?box=" \o CanonNum(o[3][4]) \o "," \o CanonNum(o[3][2]) \o "," \o CanonNum(o[3][3]) \o "," \o CanonNum(o[3][1]) IN feed(u)
          [] o[1] = "upload" -> both(asks(<<Req(4, meta, <<<<"Content-Type", o[3]>>>>, o[2])>>), body(meta, ans(meta)))
          [] o[1] = "download" -> LET u == Service.sheets[2] \o "/feeds/download/spreadsheets/Export?key=" \o r.res \o "&exportFormat=" \o o[3] IN IF r.res = "" THEN (IF e.ok \/ e.req # <<>> THEN <<"download", e>> ELSE <<>>) ELSE both(asks(<<Get(u)>>), body(u, ans(u)))
      t == IF o[1] = "add" THEN Append(s, <<o[2], o[3]>>) ELSE IF o[1] = "login" /\ e.ok THEN Append(s, <<"Authorization", "GoogleLogin auth=" \o e.v>>) ELSE s
  IN [ s |-> t, bad |-> IF \E i \in 1..Len(e.req) : e.req[i].all # s THEN <<"session headers", s, e>> ELSE bad ]
Step2(r, s, e) == IF "svc" \in DOMAIN r THEN StepData(r, s, e) ELSE [ s |-> s, bad |-> StepFeed(r, e) ]
INSTANCE TraceJudge WITH Start <- Start0, Step <- Step2
=============================================================================
