----------------------------------- MODULE Civil -----------------------------------
(***************************************************************************)
(* Dates of the civil calendar.  A date is <<y, m, d>>; a time is counted   *)
(* as whole days since 1970-01-01 and seconds of the day.                   *)
(***************************************************************************)
EXTENDS Text
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
BeforeMonth == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
LeapsTo(y) == y \div 4 - y \div 100 + y \div 400          \* leap years in 1..y
DayNumber(y, m, d) == 365 * (y - 1970) + LeapsTo(y - 1) - LeapsTo(1969) + BeforeMonth[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
Valid(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthDays(y, m)
Tomorrow(x) == IF x[3] < MonthDays(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>> ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>> ELSE <<x[1] + 1, 1, 1>>
(* ---- text: yyyy-mm-ddThh:mm:ssZ ---- *)
Shape == "0000-00-00T00:00:00Z"
Dig(s, i) == Ch(s, i) \in Digits
WellFormed(s) == Len(s) = 20 /\ \A i \in 1..20 : IF Ch(Shape, i) = "0" THEN Dig(s, i) ELSE Ch(s, i) = Ch(Shape, i)
Part(s, i, n) == NatOf(SubSeq(s, i, i + n - 1), 0)
InRange(s) == /\ Valid(Part(s, 1, 4), Part(s, 6, 2), Part(s, 9, 2)) /\ Part(s, 12, 2) <= 23 /\ Part(s, 15, 2) <= 59 /\ Part(s, 18, 2) <= 59
TimeOf(s) == <<DayNumber(Part(s, 1, 4), Part(s, 6, 2), Part(s, 9, 2)), 3600 * Part(s, 12, 2) + 60 * Part(s, 15, 2) + Part(s, 18, 2)>>
=============================================================================
