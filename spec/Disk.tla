------------------------------------ MODULE Disk ------------------------------------
(***************************************************************************)
(* Files.  A disk is a function from the names of regular files to what they *)
(* hold: <<"data", bytes>>, <<"zip", entries>> or <<"unknown">> (a write was  *)
(* refused half way).  A write of n bytes to a disk where no file can grow    *)
(* beyond lim bytes (-1: no limit) succeeds exactly when all of it fits, and  *)
(* then the file holds exactly what was written.  Where no file can be opened *)
(* (e.nofd) nothing is read, written, changed or made.                       *)
(***************************************************************************)
EXTENDS Text, FiniteSets
NoSpace == -1
Fits(n, lim) == lim = NoSpace \/ n <= lim
\* the names a file can have: not a directory, not below a file or a missing directory
Names == {"a", "b", "d/c"}
CanWrite(p, live) == p \in Names \/ p \in live
Has(disk, p) == p \in DOMAIN disk
Put(disk, p, v) == [ q \in DOMAIN disk \cup {p} |-> IF q = p THEN v ELSE disk[q] ]
Gone(disk, p) == [ q \in DOMAIN disk \ {p} |-> disk[q] ]
\* the two halves of a path
Slashes(s) == { i \in 1..Len(s) : Ch(s, i) \in {"/", "\\"} }
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Joined(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE IF Ch(a, Len(a)) = "/" THEN a \o b ELSE a \o "/" \o b
DirPart(s) == IF Slashes(s) = {} THEN "." ELSE LET k == MaxOf(Slashes(s)) IN IF k = 1 THEN Ch(s, 1) ELSE SubSeq(s, 1, k - 1)
NamePart(s) == IF Slashes(s) = {} THEN s ELSE From(s, MaxOf(Slashes(s)) + 1)
=============================================================================
