---------------------------------- MODULE MCCivil ----------------------------------
(* The calendar, day by day: each day's number is one more than the last's. *)
EXTENDS Civil, TLC
CONSTANTS From0, To
VARIABLE x
Init == x = <<From0, 1, 1>>
Next == x[1] < To /\ x' = Tomorrow(x)
N(t) == DayNumber(t[1], t[2], t[3])
Steps == [][N(x') = N(x) + 1 /\ Valid(x'[1], x'[2], x'[3])]_x
Epoch == (x = <<1970, 1, 1>>) = (N(x) = 0)
Spec == Init /\ [][Next]_x
=============================================================================
