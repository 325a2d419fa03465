---------------------------------- MODULE JCsv ----------------------------------
(* Judges CSV splitting and parsing (drivers "csv" and "split").             *)
EXTENDS Csv, TraceData
VARIABLES sc, pos, st, ok
Init0(r) == 0
Got(e) == IF "got" \in DOMAIN e THEN e.got ELSE <<>>
Stop(r) == IF "stop" \in DOMAIN r THEN r.stop ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
StepC(r, s, e) ==
  LET tab == Table(r.x)
      all == AllTold(tab)
      n == IF Stop(r) = 0 THEN Len(all) ELSE Min2(Stop(r), Len(all))
      got == [ i \in 1..Len(Got(e)) |-> [ line |-> Got(e)[i].line, status |-> Got(e)[i].status, p |-> Clean(Got(e)[i].p, FALSE) ] ]
  IN [ s |-> 0, bad |->
    IF "old" \in DOMAIN e THEN
      LET w == [ i \in 1..Len(OldMarks(r.lines)) |-> Norm(OldMarks(r.lines)[i], "") ] IN
      IF Clean(e.old, FALSE).c # w THEN <<"score lines", w, Clean(e.old, FALSE).c>> ELSE IF Clean(e.one, FALSE).c # w THEN <<"score lines one by one", w, Clean(e.one, FALSE).c>> ELSE <<>>
    ELSE IF "recs" \notin DOMAIN e THEN
      IF Len(r.d) = 1 /\ e.quoted # Cols(r.x, r.d) THEN <<"quoted", Cols(r.x, r.d), e.quoted>> ELSE IF e.plain # SplitAt(r.x, r.d) THEN <<"plain", SplitAt(r.x, r.d), e.plain>> ELSE <<>>
    ELSE IF e.recs # tab THEN <<"records", tab, e.recs>>
    ELSE IF got # SubSeq(all, 1, n) THEN <<"rows", SubSeq(all, 1, n), got>>
    ELSE IF e.ret # (HeaderStatus(tab[1]) = "ok" /\ (Stop(r) = 0 \/ Stop(r) > Len(all))) THEN <<"result", e.ret>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- Init0, Step <- StepC
=============================================================================
