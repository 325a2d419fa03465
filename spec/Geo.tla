------------------------------------- MODULE Geo -------------------------------------
(* Points on a sphere of radius 6366710 m, in whole numbers: angles in thousandths of   *)
(* a degree, lengths in decimetres, sines in units of 1/K.  The law of cosines and the  *)
(* two laws of the azimuth define distance, azimuth and the point on a radial; they are *)
(* coarse (about 1/3000) and hold for every point, the precise statements are the ones  *)
(* about meridians, the equator and points along one radial.                            *)
EXTENDS Integers, Sequences
K == 30000
T == << 0, 524, 1047, 1570, 2093, 2615, 3136, 3656, 4175, 4693, 5209, 5724, 6237, 6749, 7258, 7765, 8269, 8771, 9271, 9767, 10261, 10751, 11238, 11722, 12202, 12679, 13151, 13620, 14084, 14544, 15000, 15451, 15898, 16339, 16776, 17207, 17634, 18054, 18470, 18880, 19284, 19682, 20074, 20460, 20840, 21213, 21580, 21941, 22294, 22641, 22981, 23314, 23640, 23959, 24271, 24575, 24871, 25160, 25441, 25715, 25981, 26239, 26488, 26730, 26964, 27189, 27406, 27615, 27816, 28007, 28191, 28366, 28532, 28689, 28838, 28978, 29109, 29231, 29344, 29449, 29544, 29631, 29708, 29776, 29836, 29886, 29927, 29959, 29982, 29995, 30000, 29995 >>
SinQ(m) == LET d == m \div 1000 f == m % 1000 IN (T[d + 1] * (1000 - f) + T[d + 2] * f + 500) \div 1000
Sin(a) == LET m == a % 360000 IN IF m <= 90000 THEN SinQ(m) ELSE IF m <= 180000 THEN SinQ(180000 - m) ELSE IF m <= 270000 THEN 0 - SinQ(m - 180000) ELSE 0 - SinQ(360000 - m)
Cos(a) == Sin(a + 90000)
Mul(a, b) == (a * b) \div K
AbsN(x) == IF x < 0 THEN 0 - x ELSE x
MaxN(a, b) == IF a < b THEN b ELSE a
Near(a, b, t) == AbsN(a - b) <= t
Half == 200016091                                    \* half way round, in decimetres
Len2(m) == m * 1111 + (m * 2) \div 10 + m \div 2000   \* the length of an arc
Arc(d) == (d \div 11112) * 10 + ((d % 11112) * 10) \div 11112
Turn(a) == LET m == a % 360000 IN IF m <= 180000 THEN m ELSE 360000 - m   \* the angle between two directions a apart
\* cosine of the angle between two points <<lat, lng>>
CosOf(p, q) == Mul(Sin(p[1]), Sin(q[1])) + Mul(Mul(Cos(p[1]), Cos(q[1])), Cos(q[2] - p[2]))
East(p, q) == Mul(Sin(q[2] - p[2]), Cos(q[1]))
North(p, q) == Mul(Cos(p[1]), Sin(q[1])) - Mul(Mul(Sin(p[1]), Cos(q[1])), Cos(q[2] - p[2]))
Eps == 10
IsDistance(p, q, d) ==
  /\ d >= 0 /\ d <= Half + 10 /\ Near(Cos(Arc(d)), CosOf(p, q), Eps)
  /\ (Turn(p[2] - q[2]) = 0 => Near(d, Len2(AbsN(p[1] - q[1])), 10))
  /\ (Turn(p[2] - q[2]) = 180000 => Near(d, Len2(180000 - AbsN(p[1] + q[1])), 10))
  /\ (AbsN(p[1]) = 90000 \/ AbsN(q[1]) = 90000 => Near(d, Len2(AbsN(p[1] - q[1])), 10))
  /\ (p[1] = 0 /\ q[1] = 0 => Near(d, Len2(Turn(p[2] - q[2])), 10))
IsAzimuth(p, q, d, a) ==
  /\ a >= -180000 /\ a <= 180000
  /\ Near(Mul(Sin(a), Sin(Arc(d))), East(p, q), Eps)
  /\ Near(Mul(Cos(a), Sin(Arc(d))), North(p, q), Eps)
  /\ (p[2] = q[2] /\ p[1] # q[1] /\ AbsN(p[1]) < 90000 /\ AbsN(q[1]) < 90000 => Turn(a - (IF q[1] > p[1] THEN 0 ELSE 180000)) <= 1)
  /\ (p[1] = 0 /\ q[1] = 0 /\ Turn(p[2] - q[2]) \in 1..179990 => Turn(a - (IF (q[2] - p[2]) % 360000 < 180000 THEN 90000 ELSE 270000)) <= 1)
\* the point q at the distance d from p in the direction a
IsRadial(p, d, a, q) ==
  /\ AbsN(q[1]) <= 90000
  /\ Near(Sin(q[1]), Mul(Sin(p[1]), Cos(Arc(d))) + Mul(Mul(Cos(p[1]), Sin(Arc(d))), Cos(a)), Eps)
  /\ Near(CosOf(p, q), Cos(Arc(d)), Eps)
  /\ Near(East(p, q), Mul(Sin(a), Sin(Arc(d))), Eps)
Round(d) == LET m == d % (2 * Half) IN IF m <= Half THEN m ELSE 2 * Half - m
\* x = |f| * r / K where both are large: compared in units of r / 60000
Part(r, f, x) == LET k == r \div 60000 + 1 r1 == r \div k IN Near(x \div k, (r1 * AbsN(f)) \div K, 6 + 3)
\* c is the hypotenuse of a and b
Hyp(a, b, c) == LET k == MaxN(c, MaxN(a, b)) \div 20000 + 1 a1 == a \div k b1 == b \div k c1 == c \div k IN
  /\ c + 1 >= a /\ c + 1 >= b /\ Near(c1 * c1, a1 * a1 + b1 * b1, 4 * c1 + 8)
\* the angle, up to a right one, whose sine is x
ArcSin(x) == IF x >= K THEN 90000 ELSE LET d == CHOOSE d \in 0..89 : T[d + 1] <= x /\ x < T[d + 2] IN d * 1000 + ((x - T[d + 1]) * 1000) \div (T[d + 2] - T[d + 1])
\* the distance between two points of the latitude p that are g apart
Across(p, g) == IF g <= 5000 THEN (Len2(g) \div 1000) * (AbsN(Cos(p)) \div 30) ELSE 2 * Len2(ArcSin(Mul(AbsN(Cos(p)), Sin(g \div 2))))
\* a view of a box, h high and w wide around the latitude p, from r metres: 1.1 tan(60) times half of its diagonal
IsRange(p, h, w, r) == LET c == r * 5 + (r \div 10000) * 2486 + ((r % 10000) * 2486) \div 10000
                           a == Len2(h \div 2) + (IF h % 2 = 1 THEN 555 ELSE 0)
                           b == IF w <= 10000 THEN Across(p, w) \div 2 ELSE Across(p, w \div 2)
                           k == MaxN(c, MaxN(a, b)) \div 20000 + 1 a1 == a \div k b1 == b \div k c1 == c \div k
                           x == a1 * a1 + b1 * b1 y == c1 * c1 IN Near(x, y, x \div 30 + 8 * c1 + 8)
\* e is the angle of a rise z over a distance d
Rise(z, d, e) == LET k == MaxN(AbsN(z), d) \div 20000 + 1 z1 == z \div k d1 == d \div k IN
  /\ e >= -90000 /\ e <= 90000 /\ Near(Mul(Sin(e), d1), Mul(Cos(e), z1), 6 + MaxN(AbsN(z1), d1) \div 3000)
=============================================================================
