--------------------------------- MODULE MCRegion ---------------------------------
(* Design model of regionating: every list of up to N features, every limit:   *)
(* the division has the stated properties.  Each list is a scenario.           *)
EXTENDS Region, Json
CONSTANTS N, MaxPer
Lim == 256
World == BoxOf(Lim, 0 - Lim, Lim, 0 - Lim)
Pos == { <<0, 0>>, <<16, 16>>, <<17, -100>>, <<-255, 256>>, <<16, 48>> }
VARIABLES l
Init == l = <<>>
Next == Len(l) < N /\ \E p \in Pos, s \in {0, 1}, on \in BOOLEAN : (on \/ (p = <<0, 0>> /\ s = 0)) /\ l' = Append(l, [ m |-> ToString(Len(l) + 1), y |-> p[1], x |-> p[2], s |-> s, on |-> on ])
Good(max) ==
  LET srt == Sorted(l)
      e == Extent(l, None(Lim))
      q == Align(e, World, 3)
      r == Regionated(srt, q, max)
      fs == r.files
      Fi == 1..Len(fs)
      located == { l[i].m : i \in { j \in 1..Len(l) : l[j].on } }
      inside(m) == { <<i, j>> \in Fi \X (1..N) : j <= Len(fs[i].feats) /\ fs[i].feats[j].m = m }
      below(i, j) == Len(fs[j].id) > Len(fs[i].id) /\ IsPrefix(fs[i].id, fs[j].id)
  IN /\ \A i \in 1..(Len(srt) - 1) : srt[i].s >= srt[i + 1].s
     /\ \A m \in located : Cardinality(inside(m)) = 1
     /\ { r.list[i].m : i \in 1..Len(r.list) } = { l[i].m : i \in 1..Len(l) } \ located
     /\ \A i \in Fi : /\ fs[i].feats # <<>> /\ (max > 0 => Len(fs[i].feats) <= max)
                      /\ \A j \in 1..Len(fs[i].feats) : Has(fs[i].box, fs[i].feats[j].y, fs[i].feats[j].x)
                      /\ (fs[i].id = "q0") # (Cardinality({ p \in Fi : \E k \in 1..Len(fs[p].kids) : fs[p].kids[k] = fs[i].id }) = 1)
                      /\ \A k \in 1..Len(fs[i].kids) : \E j \in Fi : fs[j].id = fs[i].kids[k]
                      /\ \A j \in Fi : below(i, j) => \A a \in 1..Len(fs[i].feats), b \in 1..Len(fs[j].feats) : fs[i].feats[a].s >= fs[j].feats[b].s
                      /\ fs[i].kids # <<>> => Len(fs[i].feats) = max
     /\ (fs = <<>>) = (located = {})
AllGood == \A max \in 0..MaxPer : Good(max)
Emit == Len(l) = N => PrintT("BEH " \o ToJson([ i \in 1..N |-> <<l[i].y, l[i].x, l[i].s, l[i].on>> ]))
=============================================================================
