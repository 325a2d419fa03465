------------------------------------ MODULE JStrs ------------------------------------
(* Judges the text helpers (driver "strs"). *)
EXTENDS Strs, TraceData
VARIABLES sc, pos, st, ok
Count(q) == Len(q)
StepS(r, s, e) ==
  LET is(a, b, w) == IF a = b THEN <<>> ELSE <<w, a, b, e>>
      x == e.x y == e.y
      bad == CASE e.op = "split" -> is(e.got, Pieces(x, y), "split")
        [] e.op = "ends" -> is(e.got, Ends(x, y), "ends")
        [] e.op = "same" -> is(e.got, SameText(x, y), "case")
        [] e.op = "skip" -> is(e.got, SkipIn(x, 1, Ws) - 1, "skip")
        [] e.op = "num" -> IF e.got # Numeric(x) \/ e.isnum # Numeric(x) \/ e.ask # Numeric(x) THEN <<"number", Numeric(x), e>> ELSE IF Numeric(x) THEN is(e.val, CanonNum(x), "value") ELSE <<>>
        [] e.op = "bool" -> is(e.got, Truth(x), "bool")
        [] e.op = "int" -> IF x # "" /\ IsBlank(x) THEN <<>> ELSE is(e.got, WholeOf(x), "int")
        [] e.op = "text" -> is(e.got, x, "text")
        [] e.op = "expand" -> is(e.got, Expand(x, e.map, e.b, e.e), "expand")
        [] e.op = "ofint" -> IF e.got # ToString(e.n) THEN <<"of int", e>> ELSE is(e.back, e.n, "back")
        [] e.op = "ofbool" -> is(e.got, IF e.n = 1 THEN "1" ELSE "0", "of bool")
        [] e.op = "ofdouble" -> is(e.got, CanonNum(x), "of double")
        [] e.op = "hex" -> is(e.got, Byte(e.n), "hex")
  IN [ s |-> s, bad |-> bad ]
Start0(r) == 0
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepS
=============================================================================
