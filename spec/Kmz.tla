---------------------------------- MODULE Kmz ----------------------------------
(***************************************************************************)
(* A KMZ archive is the sequence of its entries <<name, data, size,     *)
(* links>> in the order they were added; links is <<is it KML, its links>>. *)
(***************************************************************************)
EXTENDS Uri
RECURSIVE SplitAll(_,_,_)
SplitAll(p, i, cur) == IF i > Len(p) THEN <<cur>> ELSE IF Ch(p, i) \in {"/", "\\"} THEN <<cur>> \o SplitAll(p, i + 1, "") ELSE SplitAll(p, i + 1, cur \o Ch(p, i))
\* a name is relative to and below the archive
RECURSIVE Climb(_,_,_)
Climb(q, i, d) == IF d < 0 THEN TRUE ELSE IF i > Len(q) THEN FALSE ELSE Climb(q, i + 1, IF q[i] = ".." THEN d - 1 ELSE IF q[i] \in {"", "."} THEN d ELSE d + 1)
CanAdd(n) == ~((n # "" /\ Ch(n, 1) \in {"/", "\\"}) \/ IsPrefix("..", n) \/ Climb(SplitAll(n, 1, ""), 1, 0))
KAdd(z, n, d, size, links) == IF CanAdd(n) THEN Append(z, <<n, d, size, links>>) ELSE z
KList(z) == [ i \in DOMAIN z |-> z[i][1] ]
First(z, T(_)) == LET k == { i \in DOMAIN z : T(z[i][1]) } IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
\* the first of several entries of one name is the one; entries beyond the size limit are not read
KRead(z, n, max) == LET i == First(z, LAMBDA m : m = n) IN IF i = 0 \/ z[i][3] > max THEN <<FALSE, "keep">> ELSE <<TRUE, z[i][2]>>
EndsIn(n, x) == Len(n) >= Len(x) /\ SubSeq(n, Len(n) - Len(x) + 1, Len(n)) = x
KFind(z, x) == LET i == First(z, LAMBDA m : EndsIn(m, x)) IN IF i = 0 THEN <<FALSE, "keep">> ELSE <<TRUE, z[i][1]>>
KDefault(z, max) == LET f == KFind(z, ".kml") IN IF ~f[1] THEN <<FALSE, "keep", "keep">> ELSE LET d == KRead(z, f[2], max) IN IF d[1] THEN <<TRUE, d[2], f[2]>> ELSE <<FALSE, "keep", "keep">>
\* checking its links: <<all there, the missing>>; links is <<is KML, links>>
KLinks(z, max) == LET f == KFind(z, ".kml") IN
  IF ~KDefault(z, max)[1] THEN <<FALSE, <<>>>>
  ELSE LET l == z[First(z, LAMBDA m : m = f[2])][4]
           miss == SelectSeq(l[2], LAMBDA h : LET x == HrefParts(h) IN x.scheme = "" /\ x.path # "" /\ ~KRead(z, x.path, max)[1])
       IN IF ~l[1] THEN <<FALSE, <<>>>> ELSE <<miss = <<>>, miss>>
\* the archive as a file of KML: its default document
KFile(z) == LET f == KFind(z, ".kml") IN IF ~f[1] THEN <<FALSE, "keep">> ELSE LET x == z[First(z, LAMBDA m : m = f[2])] IN IF x[4][1] THEN <<TRUE, x[2]>> ELSE <<FALSE, "keep">>
\* an archive is recognized by its first entry
KOpens(z) == z # <<>>
(***************************************************************************)
(* Collecting linked files.  A link names the file of its path, dots        *)
(* removed, below the base directory; either separator separates.           *)
(***************************************************************************)
Slash(p) == JoinS(SplitAll(p, 1, ""))
LinkName(h) ==
  LET x == HrefParts(h) p == RemoveDots(Slash(x.path)) IN
  IF x.scheme # "" \/ x.path = "" THEN [ ok |-> FALSE, name |-> "", dup |-> FALSE ]
  ELSE [ ok |-> ~IsPrefix("..", p), name |-> p, dup |-> ~IsPrefix("..", p) ]
\* files: <<path, data>> below the base directory.  State: [z, seen, errors]
FileAt(files, p) == LET k == { i \in DOMAIN files : files[i][1] = p } IN IF k = {} THEN 0 ELSE CHOOSE i \in k : TRUE
PackOne(files, s, h) ==
  LET l == LinkName(h) i == FileAt(files, l.name) IN
  IF ~l.ok THEN [s EXCEPT !.errors = @ + 1]
  ELSE IF l.name \in s.seen THEN s
  ELSE IF i = 0 \/ ~CanAdd(l.name) THEN [s EXCEPT !.errors = @ + 1, !.seen = @ \cup {l.name}]
  ELSE [s EXCEPT !.seen = @ \cup {l.name}, !.z = Append(@, <<l.name, files[i][2]>>)]
RECURSIVE PackAll(_,_,_,_)
PackAll(files, s, links, i) == IF i > Len(links) THEN s ELSE PackAll(files, PackOne(files, s, links[i]), links, i + 1)
Pack(files, kml, links) == PackAll(files, [ z |-> << <<"doc.kml", kml>> >>, seen |-> {}, errors |-> 0 ], links, 1)
\* the links of a document that are to files next to it
Relative(links) == SelectSeq(links, LAMBDA h : HrefParts(h).scheme = "" /\ HrefParts(h).path # "")
=============================================================================
