--------------------------------- MODULE MCFields ---------------------------------
(* Every history of two fields of two elements: a field reads as what was last *)
(* set, or as its default, and nothing else changes.                          *)
EXTENDS Fields, Json
CONSTANT N
Ty == "LookAt"
Fs == <<"heading", "tilt">>
VARIABLES s, h
Ops == { <<"set", w, f, v>> : w \in 1..2, f \in 1..2, v \in 1..2 } \cup { <<"clear", w, f>> : w \in 1..2, f \in 1..2 } \cup { <<"copy", w>> : w \in 1..2 }
Do(t, o) == CASE o[1] = "set" -> [t EXCEPT ![o[2]] = SetF(@, Fs[o[3]], ToString(o[4]))] [] o[1] = "clear" -> [t EXCEPT ![o[2]] = ClearF(@, Fs[o[3]])] [] OTHER -> t
Init == s = <<<<>>, <<>>>> /\ h = <<>>
Next == Len(h) < N /\ \E o \in Ops : s' = Do(s, o) /\ h' = Append(h, o)
RECURSIVE LastOf(_,_,_)
LastOf(hh, w, f) == IF hh = <<>> THEN 0 ELSE LET o == hh[Len(hh)] IN IF o[1] # "copy" /\ o[2] = w /\ o[3] = f THEN (IF o[1] = "set" THEN o[4] ELSE 0) ELSE LastOf(SubSeq(hh, 1, Len(hh) - 1), w, f)
ReadsLast == \A w, f \in 1..2 : Value(Ty, s[w], Fs[f]) = ToString(LastOf(h, w, f)) /\ (Fs[f] \in DOMAIN s[w]) = (LastOf(h, w, f) # 0)
WritesSet == \A w \in 1..2 : Len(DocKids(Ty, s[w])) = Cardinality(DOMAIN s[w])
Emit == Len(h) = N => PrintT("BEH " \o ToJson(h))
=============================================================================
