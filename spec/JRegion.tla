---------------------------------- MODULE JRegion ----------------------------------
(* Judges regionating (driver "region"), the calls of a region handler (driver *)
(* "regioncalls") and feature lists (driver "flist").                         *)
EXTENDS Region, TraceData
VARIABLES sc, pos, st, ok
Lim == 268435456
World == BoxOf(Lim, 0 - Lim, Lim, 0 - Lim)
OfFields(f) == BoxOf(f[1], f[2], f[3], f[4])
Fields(b) == <<b.n, b.s, b.e, b.w>>
\* fields <<m, y, x, score text, kind>>
ScoreOf(t) == IF t = "" THEN 0 ELSE LET neg == Ch(t, 1) = "-" u == IF neg THEN From(t, 2) ELSE t v == NatOf(SubSeq(u, 1, SkipIn(u, 1, Digits) - 1), 0) IN IF neg THEN 0 - v ELSE v
Feat(f) == [ m |-> f[1], y |-> f[2], x |-> f[3], s |-> ScoreOf(f[4]), on |-> f[5] # "none" ]
Feats(fs) == [ i \in 1..Len(fs) |-> Feat(fs[i]) ]
Cat(ss) == Concat(ss)
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] - b[i] \in {-1, 0, 1}
(* ---- a written hierarchy ---- *)
Hier(r, e) ==
  LET l == Feats(r.feats)
      list == r.api = "list"
      ext == Extent(l, None(Lim))
      q == IF list THEN Align(ext, World, 25) ELSE OfFields(r.box)
      max == IF list THEN r.max ELSE 10
      loc == { l[i].m : i \in { j \in 1..Len(l) : l[j].on /\ Has(q, l[j].y, l[j].x) } }
      by(m) == l[CHOOSE i \in 1..Len(l) : l[i].m = m]
      fs == e.files
      Fi == 1..Len(fs)
      rootname == IF r.root = "" THEN "1.kml" ELSE r.root
      root == { i \in Fi : fs[i].name = rootname }
      ri == CHOOSE i \in root : TRUE
      all == Cat([ i \in Fi |-> fs[i].feats ])
      links == Cat([ i \in Fi |-> [ k \in 1..Len(fs[i].links) |-> <<i, k>> ] ])
      lk(p) == fs[p[1]].links[p[2]]
      to(i) == SelectSeq(links, LAMBDA p : lk(p).href = fs[i].name)
      quad(b) == Span(Kids4(OfFields(b)))
      wf == { i \in Fi : fs[i].feats = <<>> \/ (max > 0 /\ Len(fs[i].feats) > max) \/ (fs[i].links # <<>> /\ Len(fs[i].feats) # max)
                 \/ fs[i].region.lod # <<256, -1>>
                 \/ (\E j \in 1..Len(fs[i].feats) : ~At(OfFields(fs[i].region.box), by(fs[i].feats[j])))
                 \/ (\E j \in 1..(Len(fs[i].feats) - 1) : by(fs[i].feats[j]).s < by(fs[i].feats[j + 1]).s) }
      wl == { i \in Fi : Len(to(i)) # (IF fs[i].name = rootname THEN 0 ELSE 1) }
      wc == { p \in Span(links) : ~\E i \in Fi : fs[i].name = lk(p).href /\ lk(p).region = fs[i].region }
      wq == { p \in Span(links) : OfFields(lk(p).region.box) \notin quad(fs[p[1]].region.box) \/ lk(p).mode # "onRegion"
                 \/ \E k \in 1..Len(fs[p[1]].links) : k # p[2] /\ fs[p[1]].links[k].region.box = lk(p).region.box }
      wa == { i \in Fi : fs[i].atom # <<rootname, IF fs[i].name = rootname THEN "self" ELSE "up">> }
      ws == { p \in Span(links) : \E i \in Fi : fs[i].name = lk(p).href /\ \E a \in 1..Len(fs[p[1]].feats), b \in 1..Len(fs[i].feats) : by(fs[p[1]].feats[a]).s < by(fs[i].feats[b]).s }
      pr == e.progress
  IN IF ~e.ok THEN <<"result">>
     ELSE IF \E i \in 1..Len(all) : all[i] \notin { l[k].m : k \in 1..Len(l) } THEN <<"strange feature", all>>
     ELSE IF Len(all) # Cardinality(loc) \/ Span(all) # loc THEN <<"features", loc, all>>
     ELSE IF loc = {} THEN IF fs # <<>> THEN <<"files", fs>> ELSE <<>>
     ELSE IF Cardinality(root) # 1 THEN <<"root file", [ i \in Fi |-> fs[i].name ]>>
     ELSE IF fs[ri].region.box # Fields(q) THEN <<"root region", Fields(q), fs[ri].region>>
     ELSE IF wf # {} THEN <<"file", fs[CHOOSE i \in wf : TRUE]>>
     ELSE IF wl # {} THEN <<"linked", fs[CHOOSE i \in wl : TRUE].name>>
     ELSE IF wc # {} THEN <<"link", lk(CHOOSE p \in wc : TRUE)>>
     ELSE IF wq # {} THEN <<"region of link", lk(CHOOSE p \in wq : TRUE)>>
     ELSE IF ws # {} THEN <<"scores", lk(CHOOSE p \in ws : TRUE)>>
     ELSE IF wa # {} THEN <<"atom:link", fs[CHOOSE i \in wa : TRUE]>>
     ELSE IF list /\ ~Near(fs[ri].look, <<ext.n + ext.s, ext.e + ext.w>>) THEN <<"view", fs[ri].look>>
     ELSE IF list /\ (Len(pr) # Len(fs) \/ pr[Len(pr)] # <<Cardinality(loc), Len(l)>> \/ \E i \in 1..Len(pr) : pr[i][2] # Len(l) \/ (i > 1 /\ pr[i][1] <= pr[i - 1][1])) THEN <<"progress", pr>>
     ELSE <<>>
(* ---- the calls of a handler: a stack of visits ---- *)
Sel(s, x) == \E i \in 1..Len(s) : s[i] = x
\* the expected calls of a visit, and whether the region has data
RECURSIVE Calls(_,_,_,_)
FileName(r, id, n) == IF id = "q0" /\ r.root # "" THEN r.root ELSE ToString(n) \o ".kml"
Calls(r, q, id, n) ==
  IF ~Sel(r.data, id) THEN [ ev |-> <<[ call |-> "has", id |-> id, box |-> Fields(q) ]>>, n |-> n, any |-> FALSE, name |-> "" ]
  ELSE LET c1 == Calls(r, Kids4(q)[1], id \o "0", n + 1)
           c2 == Calls(r, Kids4(q)[2], id \o "1", c1.n)
           c3 == Calls(r, Kids4(q)[3], id \o "2", c2.n)
           c4 == Calls(r, Kids4(q)[4], id \o "3", c3.n)
           cs == <<c1, c2, c3, c4>>
           ks == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i : cs[i].any)
           null == Sel(r.null, id)
           name == FileName(r, id, n + 1)
           rootname == FileName(r, "q0", 1)
           reg(b, i) == [ id |-> i, box |-> Fields(b), lod |-> <<256, -1>> ]
           file == [ name |-> (IF r.dir = "" THEN "" ELSE r.dir \o "/") \o name, region |-> reg(q, id), title |-> id, atom |-> <<rootname, IF id = "q0" THEN "self" ELSE "up">>,
                     feats |-> <<id>>, look |-> IF id = "q0" /\ r.natural # <<>> THEN <<r.natural[1] + r.natural[2], r.natural[3] + r.natural[4]>> ELSE <<>>,
                     links |-> [ k \in 1..Len(ks) |-> [ region |-> reg(Kids4(q)[ks[k]], id \o Digit[ks[k]]), href |-> cs[ks[k]].name, mode |-> "onRegion" ] ] ]
       IN [ ev |-> <<[ call |-> "has", id |-> id, box |-> Fields(q) ]>> \o c1.ev \o c2.ev \o c3.ev \o c4.ev
                   \o <<[ call |-> "get", id |-> id, box |-> Fields(q) ]>> \o (IF null THEN <<>> ELSE <<[ call |-> "save", file |-> file ]>>),
            n |-> c4.n, any |-> ~null, name |-> name ]
(* ---- lists ---- *)
ListStep(s, e) ==
  IF "final" \in DOMAIN e THEN LET ms(l) == [ i \in 1..Len(l) |-> l[i].m ] IN [ s |-> s, bad |-> IF e.final # <<ms(s.a), ms(s.b)>> THEN <<"lists", <<ms(s.a), ms(s.b)>>, e.final>> ELSE <<>> ]
  ELSE LET o == e.op
           split == o[1] \in {"split", "rsplit"}
           b == OfFields(o[2])
           out == Out(s.a, b, o[3])
           t == CASE o[1] = "push" -> [s EXCEPT !.a = Append(@, Feat(o[2]))] [] o[1] = "sort" -> [s EXCEPT !.a = Sorted(@)]
                  [] split -> [ a |-> Rest(s.a, b, o[3]), b |-> IF o[4] THEN s.b \o out ELSE s.b ] [] OTHER -> s
           n == IF split THEN Len(out) ELSE IF o[1] = "none" THEN 0 ELSE -1
           w(l) == [ box |-> Fields(Extent(l, None(Lim))), size |-> Len(l) ]
       IN [ s |-> t, bad |-> IF e.n # n THEN <<"count", n, e>> ELSE IF e.lists # <<w(t.a), w(t.b)>> THEN <<"list", <<w(t.a), w(t.b)>>, e>> ELSE <<>> ]
Start0(r) == IF "data" \in DOMAIN r THEN [ want |-> Calls(r, OfFields(r.box), "q0", 0).ev, i |-> 1 ] ELSE [ a |-> <<>>, b |-> <<>> ]
CallStep(r, s, e) ==
  IF e.call = "end" THEN [ s |-> s, bad |-> IF s.i # Len(s.want) + 1 THEN <<"missing call", s.want[s.i]>> ELSE IF ~e.ok \/ e.root # "" THEN <<"end", e>> ELSE <<>> ]
  ELSE [ s |-> [s EXCEPT !.i = @ + 1], bad |-> IF s.i > Len(s.want) THEN <<"extra call", e>> ELSE IF e # s.want[s.i] THEN <<"call", s.want[s.i], e>> ELSE <<>> ]
StepR(r, s, e) == IF "files" \in DOMAIN e THEN [ s |-> s, bad |-> Hier(r, e) ] ELSE IF "call" \in DOMAIN e THEN CallStep(r, s, e) ELSE ListStep(s, e)
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepR
=============================================================================
