------------------------------------ MODULE JDisk ------------------------------------
(* Judges file histories (driver "disk"). *)
EXTENDS Disk, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == [ disk |-> [ p \in {} |-> <<"unknown">> ], live |-> {}, temps |-> {} ]
\* the entries of an archive made from the document and the linked files that exist, each once
Linked(r, e) == IF e.op = "kmz" THEN <<>> ELSE LET q == SelectSeq(e.links, LAMBDA n : \E i \in 1..Len(r.files) : r.files[i][1] = n)
                    w == [ i \in 1..Len(q) |-> IF \E j \in 1..(i - 1) : q[j] = q[i] THEN "" ELSE q[i] ]
                    u == SelectSeq(w, LAMBDA n : n # "")
                IN [ i \in 1..Len(u) |-> LET f == SelectSeq(r.files, LAMBDA k : k[1] = u[i]) IN <<u[i], f[Len(f)][2]>> ]
Zip(r, e) == <<<<"doc.kml", e.doc>>>> \o Linked(r, e)
StepD(r, s, e) ==
  LET p == e.p  here == Has(s.disk, p)
      ans(b, w, n) == [ s |-> n, bad |-> IF b THEN <<>> ELSE <<e.op, p, w>> ]
      written(v) == LET can == CanWrite(p, s.live) fit == can /\ Fits(e.size, e.lim) IN
        ans(e.ok = fit, <<fit, e.ok, e.size, e.lim>>, [ s EXCEPT !.disk = IF fit THEN Put(s.disk, p, v) ELSE IF can THEN Put(s.disk, p, <<"unknown">>) ELSE s.disk ])
  IN CASE e.nofd /\ e.op \notin {"exists", "delete"} -> ans(~e.ok, <<"no descriptor", e.ok>>, s)
       [] e.op = "write" -> written(<<"data", e.d>>)
       [] e.op \in {"kmz", "elem", "path"} -> LET w == written(<<"zip", Zip(r, e)>>) IN IF w.bad = <<>> /\ e.ok /\ e.z # Zip(r, e) THEN [ w EXCEPT !.bad = <<"archive", p, e.z, Zip(r, e)>> ] ELSE w
       [] e.op = "read" -> ans(e.ok = here /\ (here /\ s.disk[p][1] = "data" => e.d = s.disk[p][2]), <<e.ok, e.d, IF here THEN s.disk[p] ELSE <<>>>>, s)
       [] e.op = "exists" -> ans(e.ok = here, <<e.ok>>, s)
       [] e.op = "delete" -> ans(e.ok = here, <<e.ok>>, [ s EXCEPT !.disk = IF here THEN Gone(s.disk, p) ELSE s.disk ])
       [] e.op = "temp" -> ans(e.ok /\ e.fresh, <<e.ok>>, [ s EXCEPT !.disk = Put(s.disk, p, <<"data", "">>), !.live = s.live \cup {p} ])
       [] e.op = "drop" -> ans(TRUE, <<>>, [ s EXCEPT !.disk = Gone(s.disk, p), !.live = s.live \ {p} ])
       [] e.op = "join" -> ans(e.join = Joined(p, e.q) /\ e.dir = DirPart(e.join) /\ e.name = NamePart(e.join), <<e.join, e.dir, e.name>>, s)
       [] e.op = "end" -> ans(e.left = <<>>, <<e.left>>, s)
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepD
=============================================================================
