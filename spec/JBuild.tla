---------------------------------- MODULE JBuild ----------------------------------
(* Judges built elements ("build"), values of ExtendedData ("extdata"),      *)
(* simplified lines ("simplify") and circles ("circle").                      *)
EXTENDS Build, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == IF "x" \in DOMAIN r THEN r.x ELSE <<>>
StepBuild(e) ==
  LET in == Norm(e.in, "")
      w == Built(e.fn, e.a, in)
      got == Clean(e.tree, FALSE)
      ps == IF e.fn = "flyfeature" THEN Points(in) ELSE <<>>
  IN IF w # NoTree THEN (IF e.null \/ got # Norm(w, "") THEN <<"element", Norm(w, ""), got>>
                        ELSE IF e.alts # AltFlags(w) THEN <<"altitudes", AltFlags(w), e.alts>> ELSE <<>>)
     ELSE IF e.fn = "child" THEN (IF e.null \/ ~IsChild(in, e.a[2], got) THEN <<"child region", in, got>> ELSE <<>>)
     ELSE IF e.fn = "flyfeature" /\ in.n \in Features /\ ps # <<>> THEN
        (IF e.null \/ got.n # "gx:FlyTo" \/ Len(got.c) # 2 \/ got.c[1] # Leaf("gx:duration", CanonNum(e.a[2])) \/ ~GoodLook(got.c[2], AddAll(None(180000), ps)) THEN <<"computed view", ps, got>> ELSE <<>>)
     ELSE IF ~e.null THEN <<"made of nothing", got>> ELSE <<>>
StepX(s, e) ==
  LET t == XStep(s, e.op) v == IF e.op[1] = "get" THEN GetV(s, e.op[2]) ELSE <<>> g == GetV(s, ScoreName) IN
  [ s |-> t, bad |->
    IF e.op[1] = "get" /\ (e.ok # (v # <<>>) \/ (v # <<>> /\ e.val # v[1]) \/ (v = <<>> /\ e.val # "-")) THEN <<"get", v, e>>
    ELSE IF e.op[1] = "nothing" /\ (e.ok \/ e.val # "-") THEN <<"value of nothing", e>>
    ELSE IF e.op[1] = "getscore" /\ e.n # (IF g = <<>> THEN 0 ELSE AtoI(g[1])) THEN <<"score", g, e>>
    ELSE LET x == Clean(e.tree, FALSE) w == Norm([e.tree EXCEPT !.c = SelectSeq(x.c, LAMBDA k : k.n # "ExtendedData") \o XTree(t)], "") IN IF x # w THEN <<"feature", w, x>> ELSE <<>> ]
StepS(e) == IF e.src # Len(e.pts) THEN <<"source", e>> ELSE IF e.out # Simplified(e.pts, e.tol) THEN <<"line", Simplified(e.pts, e.tol), e>> ELSE <<>>
StepC(e) == IF Len(e.pts) # e.n THEN <<"points", e>> ELSE IF \E i \in 1..e.n : Abs0(e.pts[i][1] - e.radius) > 2 \/ LET d == Abs0(e.pts[i][2] - (360000 * (i - 1)) \div e.n) IN d > 2 /\ d < 359998 THEN <<"circle", e>> ELSE <<>>
Step2(r, s, e) == IF "op" \in DOMAIN e THEN StepX(s, e) ELSE [ s |-> s, bad |-> IF "fn" \in DOMAIN e THEN StepBuild(e) ELSE IF "tol" \in DOMAIN e THEN StepS(e) ELSE StepC(e) ]
INSTANCE TraceJudge WITH Start <- Start0, Step <- Step2
=============================================================================
