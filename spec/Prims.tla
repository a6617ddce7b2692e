-------------------------------- MODULE Prims --------------------------------
(***************************************************************************)
(* The geometry layer on integer coordinates.                               *)
(*                                                                         *)
(* Primitives have small integer coordinates, so that membership, the      *)
(* relations between two primitives and the kind of their common set are    *)
(* decided exactly.  Kinds and fields:                                      *)
(*   pt p; line p d; ray p d; seg p q; plane p d; tri a b c;                *)
(*   disk p d r; ball p r          (d: direction or normal, any length)     *)
(*                                                                         *)
(* Common(a, b) is the common set of two primitives as one of               *)
(*   none | pts s (hull of the collinear points s) | chord s (the same,     *)
(*   with irrational end points, in fixed point) | ray | line | plane |     *)
(*   tri | disk | amb (a boundary case that is not judged) |                *)
(*   unsup ov (a pair the library documents as not supported)               *)
(***************************************************************************)
EXTENDS Fx, FiniteSets

IAdd(u, v) == << u[1] + v[1], u[2] + v[2], u[3] + v[3] >>
ISub(u, v) == << u[1] - v[1], u[2] - v[2], u[3] - v[3] >>
IScale(k, u) == << k * u[1], k * u[2], k * u[3] >>
IDot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
ICross(u, v) == << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
I0 == << 0, 0, 0 >>
IAbs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE GCD(_, _)
GCD(x, y) == IF y = 0 THEN x ELSE GCD(y, x % y)
FxV(u) == << FxInt(u[1]), FxInt(u[2]), FxInt(u[3]) >>

Level(k) == CASE k = "none" -> 0 [] k = "pt" -> 1 [] k = "line" -> 3 [] k = "ray" -> 4 [] k = "plane" -> 5 [] k = "seg" -> 6
              [] k = "tri" -> 7 [] k = "disk" -> 8 [] k = "ball" -> 9
OneD(a) == a.k \in { "line", "ray", "seg" }
Planar(a) == a.k \in { "plane", "tri", "disk" }
Dir(a) == IF a.k = "seg" THEN ISub(a.q, a.p) ELSE a.d
Nrm(a) == IF a.k = "tri" THEN ICross(ISub(a.b, a.a), ISub(a.c, a.a)) ELSE a.d
Org(a) == IF a.k = "tri" THEN a.a ELSE a.p
Proper(a) == CASE a.k = "pt" -> TRUE [] OneD(a) -> Dir(a) # I0 [] a.k \in { "plane", "tri" } -> Nrm(a) # I0
               [] a.k = "disk" -> a.d # I0 /\ a.r > 0 [] a.k = "ball" -> a.r > 0
Edges(t) == << [ k |-> "seg", p |-> t.a, q |-> t.b ], [ k |-> "seg", p |-> t.b, q |-> t.c ], [ k |-> "seg", p |-> t.c, q |-> t.a ] >>

------------------------------------------------------------------------------
(* Membership of the rational point x / d, d > 0: the defining property.      *)
OnPlaneOf(a, x, d) == IDot(ISub(x, IScale(d, Org(a))), Nrm(a)) = 0
From(x, d, p) == ISub(x, IScale(d, p))
In(a, x, d) ==
  CASE a.k = "pt" -> x = IScale(d, a.p)
    [] a.k = "line" -> ICross(From(x, d, a.p), a.d) = I0
    [] a.k = "ray" -> ICross(From(x, d, a.p), a.d) = I0 /\ IDot(From(x, d, a.p), a.d) >= 0
    [] a.k = "seg" -> ICross(From(x, d, a.p), Dir(a)) = I0 /\ IDot(From(x, d, a.p), Dir(a)) >= 0 /\ IDot(From(x, d, a.q), Dir(a)) <= 0
    [] a.k = "plane" -> OnPlaneOf(a, x, d)
    [] a.k = "tri" -> LET n == Nrm(a)
                          s(u, v) == IDot(n, ICross(ISub(v, u), From(x, d, u)))
                      IN  OnPlaneOf(a, x, d) /\ s(a.a, a.b) >= 0 /\ s(a.b, a.c) >= 0 /\ s(a.c, a.a) >= 0
    [] a.k = "disk" -> OnPlaneOf(a, x, d) /\ IDot(From(x, d, a.p), From(x, d, a.p)) <= a.r * a.r * d * d
    [] a.k = "ball" -> IDot(From(x, d, a.p), From(x, d, a.p)) <= a.r * a.r * d * d
(* the point is on the rim of a disk or ball: not judged                       *)
Rim(a, x, d) == a.k \in { "disk", "ball" } /\ IDot(From(x, d, a.p), From(x, d, a.p)) = a.r * a.r * d * d

------------------------------------------------------------------------------
(* Relations                                                                  *)
HasDir(a) == OneD(a) \/ Planar(a)
Axis(a) == IF OneD(a) THEN Dir(a) ELSE Nrm(a)
Parallel(a, b) == HasDir(a) /\ HasDir(b) /\
  (IF OneD(a) = OneD(b) THEN ICross(Axis(a), Axis(b)) = I0 ELSE IDot(Axis(a), Axis(b)) = 0)
Orthogonal(a, b) == HasDir(a) /\ HasDir(b) /\
  (IF OneD(a) = OneD(b) THEN IDot(Axis(a), Axis(b)) = 0 ELSE ICross(Axis(a), Axis(b)) = I0)
Collinear(a, b) == OneD(a) /\ OneD(b) /\ ICross(Dir(a), Dir(b)) = I0 /\ ICross(Dir(a), ISub(b.p, a.p)) = I0
Coplanar(a, b) == HasDir(a) /\ HasDir(b) /\
  (IF OneD(a) /\ OneD(b) THEN IDot(ISub(b.p, a.p), ICross(Dir(a), Dir(b))) = 0
   ELSE IF OneD(a) THEN IDot(Dir(a), Nrm(b)) = 0 /\ OnPlaneOf(b, a.p, 1)
   ELSE IF OneD(b) THEN IDot(Dir(b), Nrm(a)) = 0 /\ OnPlaneOf(a, b.p, 1)
   ELSE ICross(Nrm(a), Nrm(b)) = I0 /\ OnPlaneOf(a, Org(b), 1))

------------------------------------------------------------------------------
(* Parameter ranges: bounds n/d, d >= 0; d = 0 is an infinity of the sign of n *)
RLe(x, y) == x[1] * y[2] <= y[1] * x[2]
RMax(x, y) == IF RLe(x, y) THEN y ELSE x
RMin(x, y) == IF RLe(x, y) THEN x ELSE y
Q(n, d) == IF d < 0 THEN << -n, -d >> ELSE << n, d >>
Lo(a) == IF a.k = "line" THEN << -1, 0 >> ELSE << 0, 1 >>
Hi(a) == IF a.k = "seg" THEN << 1, 1 >> ELSE << 1, 0 >>
Within(a, t) == RLe(Lo(a), t) /\ RLe(t, Hi(a))

None == [ k |-> "none" ]
Amb == [ k |-> "amb" ]
Pt(x, d) == LET g == GCD(GCD(GCD(d, IAbs(x[1])), IAbs(x[2])), IAbs(x[3])) IN [ x |-> << x[1] \div g, x[2] \div g, x[3] \div g >>, d |-> d \div g ]
At(a, t) == Pt(IAdd(IScale(t[2], a.p), IScale(t[1], Dir(a))), t[2])
Pts(s) == IF s = {} THEN None ELSE [ k |-> "pts", s |-> s ]
Piece(a, lo, hi) ==                                 \* the part of a's line between two parameters
  IF lo[2] # 0 /\ hi[2] # 0 THEN (IF RLe(lo, hi) THEN Pts({ At(a, lo), At(a, hi) }) ELSE None)
  ELSE IF lo[2] # 0 THEN [ k |-> "ray", p |-> At(a, lo), d |-> Dir(a) ]
  ELSE IF hi[2] # 0 THEN [ k |-> "ray", p |-> At(a, hi), d |-> IScale(-1, Dir(a)) ]
  ELSE [ k |-> "line", p |-> Pt(a.p, 1), d |-> Dir(a) ]

Lines(a, b) ==                                      \* two of line, ray, segment
  LET d0 == Dir(a)  d1 == Dir(b)  w == ISub(b.p, a.p)  n == ICross(d0, d1)
      im(s) == Q(s[2] * IDot(d0, w) + s[1] * IDot(d0, d1), s[2] * IDot(d0, d0))
      fwd == IDot(d0, d1) > 0
      lo == IF fwd THEN im(Lo(b)) ELSE im(Hi(b))
      hi == IF fwd THEN im(Hi(b)) ELSE im(Lo(b))
      t0 == << IDot(ICross(w, d1), n), IDot(n, n) >>
      t1 == << IDot(ICross(w, d0), n), IDot(n, n) >>
  IN  IF n = I0
      THEN IF ICross(w, d0) = I0 THEN Piece(a, RMax(Lo(a), lo), RMin(Hi(a), hi)) ELSE None
      ELSE IF IDot(w, n) # 0 THEN None
      ELSE IF Within(a, t0) /\ Within(b, t1) THEN Pts({ At(a, t0) }) ELSE None

LinePlane(a, b) ==
  LET n == Nrm(b)  nd == IDot(n, Dir(a))  w == IDot(n, ISub(Org(b), a.p))  t == Q(w, nd)
  IN  IF nd = 0 THEN (IF w = 0 THEN Piece(a, Lo(a), Hi(a)) ELSE None)
      ELSE IF a.k = "ray" /\ w = 0 THEN Amb          \* a ray that starts on the plane and leaves it
      ELSE IF Within(a, t) THEN Pts({ At(a, t) }) ELSE None

Drop(u, k) == IF k = 1 THEN << u[2], u[3] >> ELSE IF k = 2 THEN << u[3], u[1] >> ELSE << u[1], u[2] >>
Cross2(u, v) == u[1] * v[2] - u[2] * v[1]
LineTri(a, b) ==
  LET n == Nrm(b)  d == Dir(a)  nd == IDot(n, d)  w == IDot(n, ISub(b.a, a.p))  t == Q(w, nd)
      vs == << b.a, b.b, b.c, b.a >>
      s == { Sign(IDot(d, ICross(ISub(vs[j], a.p), ISub(vs[j + 1], a.p)))) : j \in 1 .. 3 }
      k == CHOOSE m \in 1 .. 3 : n[m] # 0
      e(j) == Drop(ISub(vs[j + 1], vs[j]), k)
      al(j) == Sign(n[k]) * Cross2(e(j), Drop(ISub(a.p, vs[j]), k))
      be(j) == Sign(n[k]) * Cross2(e(j), Drop(d, k))
      los == { << -al(j), be(j) >> : j \in { m \in 1 .. 3 : be(m) > 0 } }
      his == { << al(j), -be(j) >> : j \in { m \in 1 .. 3 : be(m) < 0 } }
      top(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)
      bot(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)
  IN  IF nd # 0 THEN (IF Within(a, t) /\ ~({ -1, 1 } \subseteq s) THEN Pts({ At(a, t) }) ELSE None)
      ELSE IF w # 0 \/ \E j \in 1 .. 3 : be(j) = 0 /\ al(j) < 0 THEN None
      ELSE Piece(a, RMax(Lo(a), top(los)), RMin(Hi(a), bot(his)))

(* Chords: the part of a 1-d primitive inside the sphere of centre c, radius r *)
FxAt(p, t, d) == VAdd(FxV(p), VScale(t, FxV(d)))
Chord(s) == [ k |-> "chord", s |-> s ]
InSphere(a, c, r) ==
  LET d == Dir(a)  A == IDot(d, d)  B == IDot(d, ISub(a.p, c))  C == IDot(ISub(a.p, c), ISub(a.p, c)) - r * r
      D == B * B - A * C  f1 == A + 2 * B + C
      root(s) == FxDiv(FxAdd(FxInt(-B), IF s < 0 THEN FxNeg(FxSqrt(FxInt(D))) ELSE FxSqrt(FxInt(D))), FxInt(A))
      r0 == root(-1)  r1 == root(1)
      on(t) == FxAt(a.p, t, d)
  IN  IF D < 0 THEN None
      ELSE IF D = 0 \/ (a.k # "line" /\ C = 0) \/ (a.k = "seg" /\ f1 = 0) THEN Amb
      ELSE IF a.k = "line" THEN Chord({ on(r0), on(r1) })
      ELSE IF a.k = "ray" THEN (IF C < 0 THEN Chord({ FxV(a.p), on(r1) }) ELSE IF B > 0 THEN None ELSE Chord({ on(r0), on(r1) }))
      ELSE IF C > 0 /\ f1 > 0 /\ (-B < 0 \/ -B > A) THEN None
      ELSE Chord({ IF C < 0 THEN FxV(a.p) ELSE on(r0), IF f1 < 0 THEN FxV(a.q) ELSE on(r1) })
LineDisk(a, b) ==
  LET n == b.d  nd == IDot(n, Dir(a))  w == IDot(n, ISub(b.p, a.p))  t == Q(w, nd)  z == At(a, t)
  IN  IF nd = 0 THEN (IF w # 0 THEN None ELSE InSphere(a, b.p, b.r))
      ELSE IF a.k = "ray" /\ w = 0 THEN Amb
      ELSE IF ~Within(a, t) THEN None
      ELSE IF Rim(b, z.x, z.d) THEN Amb
      ELSE IF In(b, z.x, z.d) THEN Pts({ z }) ELSE None

PlanesLine(a, b) ==                                 \* line of two planes that are not parallel
  LET m == ICross(Nrm(a), Nrm(b))
      x == IAdd(IScale(IDot(Nrm(a), Org(a)), ICross(Nrm(b), m)), IScale(IDot(Nrm(b), Org(b)), ICross(m, Nrm(a))))
  IN  [ k |-> "line", p |-> Pt(x, IDot(m, m)), d |-> m ]
Planes(a, b) ==
  IF ICross(Nrm(a), Nrm(b)) = I0 THEN (IF OnPlaneOf(a, Org(b), 1) THEN [ k |-> "plane", p |-> Org(a), d |-> Nrm(a) ] ELSE None)
  ELSE PlanesLine(a, b)
PlaneTri(a, b) ==
  LET vs == << b.a, b.b, b.c >>
      s == [ j \in 1 .. 3 |-> IDot(Nrm(a), ISub(vs[j], Org(a))) ]
      cut(j, l) == Pt(IAdd(IScale(IAbs(s[l]), vs[j]), IScale(IAbs(s[j]), vs[l])), IAbs(s[j]) + IAbs(s[l]))
  IN  IF s = [ j \in 1 .. 3 |-> 0 ] THEN [ k |-> "tri", s |-> { b.a, b.b, b.c } ]
      ELSE Pts({ Pt(vs[j], 1) : j \in { m \in 1 .. 3 : s[m] = 0 } }
               \cup UNION { { cut(j, l) : l \in { m \in 1 .. 3 : Sign(s[j]) * Sign(s[m]) = -1 } } : j \in 1 .. 3 })
PlaneDisk(a, b) ==
  LET n == a.d  m == b.d  g == ICross(n, m)  dl == IDot(n, ISub(b.p, a.p))
      x == dl * dl * IDot(m, m)  y == b.r * b.r * IDot(g, g)
      h == ICross(g, m)  nh == IDot(n, h)            \* foot of the centre on the line of the planes: c - dl/nh h
      back == VScale(FxRat(-dl, nh), FxV(h))
      half == FxSqrt(FxDiv(FxSub(FxInt(b.r * b.r), VNorm2(back)), FxInt(IDot(g, g))))
      foot == VAdd(FxV(b.p), back)
  IN  IF g = I0 THEN (IF dl = 0 THEN [ k |-> "disk", p |-> Pt(b.p, 1), d |-> b.d, r2 |-> FxInt(b.r * b.r) ] ELSE None)
      ELSE IF x > y THEN None ELSE IF x = y THEN Amb
      ELSE Chord({ VAdd(foot, VScale(half, FxV(g))), VSub(foot, VScale(half, FxV(g))) })
PlaneBall(a, b) ==
  LET n == a.d  N == IDot(n, n)  s == IDot(n, ISub(b.p, a.p))
  IN  IF s * s > b.r * b.r * N THEN None ELSE IF s * s = b.r * b.r * N THEN Amb
      ELSE [ k |-> "disk", p |-> Pt(ISub(IScale(N, b.p), IScale(s, n)), N), d |-> n, r2 |-> FxRat(b.r * b.r * N - s * s, N) ]

PtsOf(r) == IF r.k = "pts" THEN r.s ELSE {}
TriTouches(a, b) ==                                 \* do two coplanar triangles overlap or touch
  \/ \E v \in { a.a, a.b, a.c } : In(b, v, 1)
  \/ \E v \in { b.a, b.b, b.c } : In(a, v, 1)
  \/ \E j, l \in 1 .. 3 : Lines(Edges(a)[j], Edges(b)[l]) # None
Unsup(ov) == [ k |-> "unsup", ov |-> ov ]
Tris(a, b) ==
  IF ICross(Nrm(a), Nrm(b)) = I0 THEN (IF OnPlaneOf(a, b.a, 1) THEN Unsup(TriTouches(a, b)) ELSE None)
  ELSE Pts(UNION { PtsOf(LineTri(Edges(a)[j], b)) : j \in 1 .. 3 } \cup UNION { PtsOf(LineTri(Edges(b)[j], a)) : j \in 1 .. 3 })

Small == FxRat(1, 1048576)
Tiny(x) == FxLe(FxAbs(x), Small)
(* interval of parameters of p + t d inside the sphere c, r (fixed point)      *)
SphereT(p, d, c, r) ==
  LET A == VDot(d, d)  B == VDot(d, VSub(p, c))  C == FxSub(VNorm2(VSub(p, c)), FxInt(r * r))
      D == FxSub(FxSq(B), FxMul(A, C))
  IN  IF Tiny(FxDiv(D, A)) THEN [ k |-> "amb" ] ELSE IF FxNegative(D) THEN [ k |-> "none" ]
      ELSE [ k |-> "t", lo |-> FxDiv(FxSub(FxNeg(B), FxSqrt(D)), A), hi |-> FxDiv(FxAdd(FxNeg(B), FxSqrt(D)), A) ]
Overlap(p, d, lo0, hi0, lo1, hi1) ==
  LET lo == FxMax(lo0, lo1)  hi == FxMin(hi0, hi1)
  IN  IF Tiny(FxSub(hi, lo)) THEN Amb ELSE IF FxLt(hi, lo) THEN None
      ELSE Chord({ VAdd(p, VScale(lo, d)), VAdd(p, VScale(hi, d)) })
FxP(z) == VDivS(FxV(z.x), FxInt(z.d))
TriDisk(a, b) ==
  IF ICross(Nrm(a), b.d) = I0 THEN (IF OnPlaneOf(a, b.p, 1) THEN Unsup(FALSE) ELSE None)
  ELSE LET s == PtsOf(PlaneTri([ k |-> "plane", p |-> b.p, d |-> b.d ], a))
           x == CHOOSE z \in s : TRUE
           y == CHOOSE z \in s : z # x
           iv == SphereT(FxP(x), VSub(FxP(y), FxP(x)), FxV(b.p), b.r)
       IN  IF s = {} THEN None ELSE IF Cardinality(s) = 1 THEN Amb
           ELSE IF iv.k # "t" THEN [ k |-> iv.k ]
           ELSE Overlap(FxP(x), VSub(FxP(y), FxP(x)), Fx0, Fx1, iv.lo, iv.hi)
Disks(a, b) ==
  IF ICross(a.d, b.d) = I0 THEN (IF OnPlaneOf(a, b.p, 1) THEN Unsup(FALSE) ELSE None)
  ELSE LET l == PlanesLine(a, b)  p == FxP(l.p)  d == FxV(l.d)
           i0 == SphereT(p, d, FxV(a.p), a.r)  i1 == SphereT(p, d, FxV(b.p), b.r)
       IN  IF i0.k = "none" \/ i1.k = "none" THEN None ELSE IF i0.k = "amb" \/ i1.k = "amb" THEN Amb
           ELSE Overlap(p, d, i0.lo, i0.hi, i1.lo, i1.hi)

CommonUp(a, b) ==                                   \* Level(a.k) <= Level(b.k)
  IF a.k = "none" \/ b.k = "none" THEN Unsup(FALSE)
  ELSE IF a.k = "pt" THEN (IF b.k = "ball" THEN Unsup(FALSE) ELSE IF Rim(b, a.p, 1) THEN Amb ELSE IF In(b, a.p, 1) THEN Pts({ Pt(a.p, 1) }) ELSE None)
  ELSE IF OneD(a) THEN (IF OneD(b) THEN Lines(a, b) ELSE IF b.k = "plane" THEN LinePlane(a, b) ELSE IF b.k = "tri" THEN LineTri(a, b)
                        ELSE IF b.k = "disk" THEN LineDisk(a, b) ELSE InSphere(a, b.p, b.r))
  ELSE IF a.k = "plane" THEN (IF b.k = "plane" THEN Planes(a, b) ELSE IF b.k = "seg" THEN LinePlane(b, a) ELSE IF b.k = "tri" THEN PlaneTri(a, b)
                              ELSE IF b.k = "disk" THEN PlaneDisk(a, b) ELSE PlaneBall(a, b))
  ELSE IF a.k = "tri" /\ b.k = "tri" THEN Tris(a, b)
  ELSE IF a.k = "tri" /\ b.k = "disk" THEN TriDisk(a, b)
  ELSE IF a.k = "disk" /\ b.k = "disk" THEN Disks(a, b)
  ELSE Unsup(FALSE)
Common(a, b) == IF Level(a.k) <= Level(b.k) THEN CommonUp(a, b) ELSE CommonUp(b, a)
=============================================================================
