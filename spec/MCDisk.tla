------------------------------------ MODULE MCDisk ------------------------------------
(* A buffered writer that checks every step, on a disk that fills up at any byte: success is reported exactly when everything is on the disk. *)
EXTENDS Disk
CONSTANTS MaxLen, BufSize, Checked
VARIABLES data, todo, buf, disk, cap, err, phase
vars == <<data, todo, buf, disk, cap, err, phase>>
Init == /\ \E n \in 0..MaxLen : data = [ i \in 1..n |-> i ]
        /\ todo = data /\ buf = <<>> /\ disk = <<>> /\ cap \in 0..(MaxLen + 1) /\ err = FALSE /\ phase = "open"
Min2(a, b) == IF a < b THEN a ELSE b
\* the disk takes what it can of the buffer
Drain == LET k == Min2(Len(buf), cap - Len(disk)) IN
  /\ disk' = disk \o SubSeq(buf, 1, k) /\ buf' = <<>> /\ err' = (err \/ k < Len(buf))
PutB == phase = "open" /\ todo # <<>> /\ Len(buf) < BufSize /\ buf' = Append(buf, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED <<data, disk, cap, err, phase>>
Flush == phase = "open" /\ Len(buf) = BufSize /\ Drain /\ UNCHANGED <<data, todo, cap, phase>>
Close == phase = "open" /\ todo = <<>> /\ Drain /\ phase' = "done" /\ UNCHANGED <<data, todo, cap>>
Next == PutB \/ Flush \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result == IF Checked THEN ~err ELSE TRUE
Honest == phase = "done" => (Result <=> (disk = data)) /\ (Result <=> Fits(Len(data), cap))
Prefix == Len(disk) <= Len(data) /\ (~err => disk = SubSeq(data, 1, Len(disk)))
Ends == <>(phase = "done")
Paths == \A a \in {"", "x", "x/", "/", "d/x"}, b \in {"", "y", "e/y"} : LET j == Joined(a, b) IN j # "" => (NamePart(j) = "" \/ Joined(DirPart(j), NamePart(j)) \in {j, "./" \o j})
=============================================================================
