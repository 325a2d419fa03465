------------------------------------ MODULE JGeo ------------------------------------
(* Judges great-circle geometry (driver "geo"). *)
EXTENDS Geo, TraceData
VARIABLES sc, pos, st, ok
Pole(p) == AbsN(p[1]) > 89990
StepG(r, s, e) ==
  LET no(b, w) == IF b THEN <<>> ELSE <<e.op, w, e>>
      bad == CASE ~e.num -> <<"not a number", e>>
        [] e.op = "dist" -> IF ~IsDistance(e.p, e.q, e.d) THEN <<"distance", CosOf(e.p, e.q), Cos(Arc(e.d)), e>> ELSE IF ~Near(e.d, e.back, 1) THEN <<"not symmetric", e>>
             ELSE IF ~Near(e.d, e.shift, 10) THEN <<"depends on the meridian", e>>
             ELSE IF e.p = e.q /\ e.d # 0 THEN <<"distance to itself", e>>
             ELSE IF ~Pole(e.p) /\ ~IsAzimuth(e.p, e.q, e.d, e.az) THEN <<"azimuth", e>>
             ELSE IF ~Pole(e.q) /\ ~IsAzimuth(e.q, e.p, e.d, e.azb) THEN <<"azimuth back", e>> ELSE <<>>
        [] e.op = "tri" -> no(e.pq <= e.pr + e.rq + 3, "triangle")
        [] e.op = "radial" -> IF Pole(e.p) THEN no(Near(e.dd, Round(e.d), 15), "distance of the point")
             ELSE IF ~IsRadial(e.p, e.d, e.a, e.q) THEN <<"point on radial", e>>
             ELSE IF ~Near(e.dd, Round(e.d), 15) THEN <<"distance of the point", e>>
             ELSE IF e.d \in 10000..199000000 /\ ~Pole(e.q) /\ Turn(e.aa - e.a) > 3 THEN <<"azimuth of the point", e>>
             ELSE IF e.h THEN <<"altitude", e>> ELSE <<>>
        [] e.op = "along" -> no(Pole(e.p) \/ Near(e.between, Round(AbsN(e.d1 - e.d2)), 15), "along a radial")
        [] e.op = "d3" -> IF ~Hyp(e.d, AbsN(e.z2 - e.z1), e.d3) THEN <<"3d", e>> ELSE no(e.d = 0 \/ Rise(e.z2 - e.z1, e.d, e.el), "elevation")
        [] e.op = "vec" -> no(Part(e.range, Cos(e.el), e.g) /\ Part(e.range, Sin(e.el), e.h), "ground and height")
        [] e.op = "units" -> no(e.deg = e.x /\ e.len = e.m /\ Near(e.rad, e.x * 17 + (e.x * 453) \div 1000 + (e.x * 29) \div 100000 + 1, 2) /\ Near(e.murad, (e.m * 100000) \div 636671, 1), "units")
        [] e.op = "vec3" -> no(e.got = e.want /\ e.has = (Len(e.want) = 3) /\ e.eq, "vec3")
  IN [ s |-> s, bad |-> bad ]
Start0(r) == 0
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepG
=============================================================================
