------------------------------- MODULE MCCoords -------------------------------
(* Texts built tuple by tuple from all separators; the reader inverts the   *)
(* writers.  Every text is emitted and driven through the real code.        *)
EXTENDS Coords, Json
CONSTANTS MaxTuples, Nums, Seps
VARIABLES txt, nums, n
NumSeq == << "1", "-2.5", ".5", "-.75", "1e2", "007", "+3", "0", "-179.999999999999", "12.", "-0.0001" >>
SepSeq == << " ", "\n", "\t", "\r", "\r\n", "  ", "\n\t  " >>
CommaSeq == << ",", " ,", ", ", " , ", ",\n" >>
Init == n = 0 /\ nums = <<>> /\ txt \in { "", " ", "\n  " }
T2(a, b, c) == a \o c \o b
Next == /\ n < MaxTuples
        /\ \E a \in Nums, b \in Nums, d \in {0} \cup Nums, s \in Seps, c \in 1..(IF n = 0 THEN Len(CommaSeq) ELSE 1) :
             LET tup == IF d = 0 THEN NumSeq[a] \o CommaSeq[c] \o NumSeq[b] ELSE NumSeq[a] \o CommaSeq[c] \o NumSeq[b] \o CommaSeq[c] \o NumSeq[d]
                 lst == IF d = 0 THEN << NumSeq[a], NumSeq[b] >> ELSE << NumSeq[a], NumSeq[b], NumSeq[d] >>
             IN txt' = (IF n = 0 THEN txt ELSE txt \o SepSeq[s]) \o tup /\ nums' = Append(nums, lst)
        /\ n' = n + 1
Counts == Len(Points(txt)) = Len(nums)
Exact == \A i \in 1..Len(nums) : Points(txt)[i] = << CanonNum(nums[i][1]), CanonNum(nums[i][2]), IF Len(nums[i]) > 2 THEN CanonNum(nums[i][3]) ELSE "0" >>
Inverts == LET ps == Points(txt) IN Points(Raw(ps)) = ps /\ Points(Pretty(ps)) = ps
Emit == PrintT("BEH " \o ToJson([txt |-> txt, nums |-> nums]))
=============================================================================
