------------------------------- MODULE Contact -------------------------------
(***************************************************************************)
(* Reference semantics of one rib in contact with the ground.              *)
(*                                                                         *)
(* A rib is a disc of radius r, width w, centre (0, y, 0) in hub axes and  *)
(* normal along the hub y axis.  A hub pose is [r |-> matrix, t |-> vector].*)
(* All of it is computed in hub axes; the ground is brought there by       *)
(* ToHub, and results of the implementation as well.                       *)
(*                                                                         *)
(* Decisions are three-valued: "in", "out", or "amb" when the exact answer *)
(* is closer to the decision boundary than the rounding and the tolerances *)
(* of any reasonable implementation.                                       *)
(***************************************************************************)
EXTENDS FxElem, SequencesExt

E6  == FxRat(1, 1000000)
E7  == FxRat(1, 10000000)
E8  == FxRat(1, 100000000)
E9  == FxRat(1, 1000000000)
E10 == FxMul(E9, FxRat(1, 10))
E11 == FxMul(E9, FxRat(1, 100))
E12 == FxMul(E6, E6)
E13 == FxMul(E12, FxRat(1, 10))

ToHub(pose, p)  == MTApply(pose.r, VSub(p, pose.t))
DirToHub(pose, v) == MTApply(pose.r, v)
ToWorld(pose, q) == VAdd(MApply(pose.r, q), pose.t)

(* Triangles of the ground in hub axes, with the upward unit normal (world  *)
(* z >= 0, expressed in hub axes), friction, and steepness.                 *)
UpNormal(v) ==                               \* world vertices -> << unit normal, |z| >>
  LET n == VUnit(VCross(VSub(v[2], v[1]), VSub(v[3], v[1])))
  IN  IF n[3][1] < 0 THEN VNeg(n) ELSE n
HubTri(pose, tri) ==
  LET n == UpNormal(tri.v)
  IN  [ q |-> << ToHub(pose, tri.v[1]), ToHub(pose, tri.v[2]), ToHub(pose, tri.v[3]) >>,
        w |-> tri.v, n |-> DirToHub(pose, n), nz |-> n[3], f |-> tri.f ]
HubTris(pose, tris) == FoldLeft(LAMBDA acc, t : Append(acc, HubTri(pose, t)), << >>, tris)

------------------------------------------------------------------------------
(* Plane sections.  In the rib plane points are << x, z >>.                  *)

P2Sub(a, b) == << FxSub(a[1], b[1]), FxSub(a[2], b[2]) >>
P2Dot(a, b) == FxAdd(FxMul(a[1], b[1]), FxMul(a[2], b[2]))
P2Cross(a, b) == FxSub(FxMul(a[1], b[2]), FxMul(a[2], b[1]))
P2Norm(a) == VNorm(<< a[1], Fx0, a[2] >>)
P2Lerp(a, b, t) == << FxAdd(a[1], FxMul(t, FxSub(b[1], a[1]))), FxAdd(a[2], FxMul(t, FxSub(b[2], a[2]))) >>

CutEdge(a, b, da, db) ==                     \* da, db of opposite sign
  LET t == FxDiv(da, FxSub(da, db))
  IN  << FxAdd(a[1], FxMul(t, FxSub(b[1], a[1]))), FxAdd(a[3], FxMul(t, FxSub(b[3], a[3]))) >>
XZ(a) == << a[1], a[3] >>

(* The part of the segment a-b inside the disc of radius r about the origin: *)
(* << >> or << a', b' >>.                                                    *)
ClipDisc(a, b, r) ==
  LET u  == P2Sub(b, a)
      L  == P2Norm(u)
  IN  IF L[1] = 0 THEN << >>
      ELSE LET e  == << FxDiv(u[1], L), FxDiv(u[2], L) >>       \* along the segment
               B  == P2Dot(a, e)
               D  == FxSub(FxSq(B), FxSub(P2Dot(a, a), FxSq(r)))
           IN  IF D[1] <= 0 THEN << >>
               ELSE LET s  == FxSqrt(D)
                        t0 == FxMax(Fx0, FxSub(FxNeg(B), s))
                        t1 == FxMin(L, FxSub(s, B))
                        at(t) == << FxAdd(a[1], FxMul(t, e[1])), FxAdd(a[2], FxMul(t, e[2])) >>
                    IN  IF FxGe(t0, t1) THEN << >> ELSE << at(t0), at(t1) >>

(* Distance of the line a-b from the origin, times |b-a| = |cross|.           *)
(* What one triangle contributes to a rib:                                    *)
(*   k   "out" nothing;  "in" a segment;  "amb" undecided, at most hi long    *)
(*   len length of the segment;  sec area of the sector cut off beyond it     *)
(*   pt  point of the segment on the bisector of the sector;  rc its distance *)
None == [ k |-> "out" ]
Amb(hi) == [ k |-> "amb", hi |-> hi ]

SegContribution(a, b, r) ==
  LET cl == ClipDisc(a, b, r)
      u  == P2Sub(b, a)
      L  == P2Norm(u)
      nearTangent ==                          \* line passes within 1e-6 of the rim
        /\ FxLe(FxAbs(FxSub(FxAbs(P2Cross(a, b)), FxMul(r, L))), FxMul(E6, L))
      wide == ClipDisc(a, b, FxAdd(r, E6))
  IN  IF L[1] = 0 THEN None
      ELSE IF nearTangent THEN
             (IF wide = << >> THEN None
              ELSE LET w == P2Sub(wide[2], wide[1]) IN Amb(P2Norm(w)))
      ELSE IF cl = << >> THEN None
      ELSE LET p  == cl[1]  q == cl[2]
               w  == P2Sub(q, p)
               ln == P2Norm(w)
               ra == P2Norm(p)
               rb == P2Norm(q)
               cr == FxAbs(P2Cross(p, q))
               dt == P2Dot(p, q)
           IN  IF FxLe(ra, E6) \/ FxLe(rb, E6) THEN Amb(ln)
               ELSE LET th  == FxAngle(dt, cr)
                        sec == FxHalve(FxSub(FxMul(FxSq(r), th), cr))
                        k   == FxDiv(ra, FxAdd(ra, rb))
                        pt  == P2Lerp(p, q, k)
                        rc  == P2Norm(pt)
                    IN  [ k |-> "in", len |-> ln, sec |-> sec, pt |-> pt, rc |-> rc ]

TriContribution(T, y, r) ==                    \* T: three hub points
  LET d1 == FxSub(T[1][2], y)
      d2 == FxSub(T[2][2], y)
      d3 == FxSub(T[3][2], y)
      near == (IF FxLe(FxAbs(d1), E6) THEN 1 ELSE 0) + (IF FxLe(FxAbs(d2), E6) THEN 1 ELSE 0)
              + (IF FxLe(FxAbs(d3), E6) THEN 1 ELSE 0)
      s1 == d1[1]  s2 == d2[1]  s3 == d3[1]
      on   == (IF FxLe(FxAbs(d1), E13) THEN 1 ELSE 0) + (IF FxLe(FxAbs(d2), E13) THEN 1 ELSE 0)
              + (IF FxLe(FxAbs(d3), E13) THEN 1 ELSE 0)
  IN  IF near = 3 /\ on = 3 THEN None          \* the triangle lies in the plane of the rib
      ELSE IF near = 2 /\ on = 2 THEN          \* an edge does: it belongs to the positive side
        LET third(a, b, c) == IF FxGt(FxAbs(a), E6) THEN a ELSE IF FxGt(FxAbs(b), E6) THEN b ELSE c
            edge == IF FxGt(FxAbs(d1), E6) THEN << T[2], T[3] >> ELSE IF FxGt(FxAbs(d2), E6) THEN << T[3], T[1] >> ELSE << T[1], T[2] >>
        IN  IF third(d1, d2, d3)[1] < 0 THEN None ELSE SegContribution(XZ(edge[1]), XZ(edge[2]), r)
      ELSE IF near >= 2 THEN                   \* nearly so
        LET e(a, b) == IF ClipDisc(XZ(a), XZ(b), FxAdd(r, E6)) # << >> THEN 1 ELSE 0
        IN  IF near = 3 \/ e(T[1], T[2]) + e(T[2], T[3]) + e(T[3], T[1]) > 0
            THEN Amb(FxTwice(r)) ELSE None
      ELSE IF (s1 > 0 /\ s2 > 0 /\ s3 > 0) \/ (s1 < 0 /\ s2 < 0 /\ s3 < 0) THEN None
      ELSE LET pts == (IF s1 = 0 THEN << XZ(T[1]) >> ELSE << >>)
                      \o (IF s2 = 0 THEN << XZ(T[2]) >> ELSE << >>)
                      \o (IF s3 = 0 THEN << XZ(T[3]) >> ELSE << >>)
                      \o (IF s1 * s2 < 0 THEN << CutEdge(T[1], T[2], d1, d2) >> ELSE << >>)
                      \o (IF s2 * s3 < 0 THEN << CutEdge(T[2], T[3], d2, d3) >> ELSE << >>)
                      \o (IF s3 * s1 < 0 THEN << CutEdge(T[3], T[1], d3, d1) >> ELSE << >>)
           IN  IF Len(pts) < 2 THEN None ELSE SegContribution(pts[1], pts[2], r)

(* Sum over all triangles of the ground.  n: weighted normal, nok: the normals *)
(* are well defined.                                                           *)
Empty == [ len |-> Fx0, sec |-> Fx0, m |-> V0, n |-> V0, f |-> Fx0, amb |-> Fx0,
           nok |-> TRUE, cnt |-> 0, fmin |-> << >>, fmax |-> << >> ]
AddContribution(acc, tri, y, r) ==
  LET c == TriContribution(tri.q, y, r)
  IN  IF c.k = "out" THEN acc
      ELSE IF c.k = "amb" THEN [ acc EXCEPT !.amb = FxAdd(@, c.hi), !.cnt = @ + 1,
                                 !.fmin = IF @ = << >> THEN tri.f ELSE FxMin(@, tri.f),
                                 !.fmax = IF @ = << >> THEN tri.f ELSE FxMax(@, tri.f) ]
      ELSE LET p  == << c.pt[1], Fx0, c.pt[2] >>
               rd == IF c.rc[1] = 0 THEN V0 ELSE VNeg(VDivS(p, c.rc))
               nn == VUnit(VAdd(rd, << Fx0, tri.n[2], Fx0 >>))
           IN  [ len  |-> FxAdd(acc.len, c.len),
                 sec  |-> FxAdd(acc.sec, c.sec),
                 m    |-> VAdd(acc.m, VScale(c.sec, p)),
                 n    |-> VAdd(acc.n, VScale(c.sec, nn)),
                 f    |-> FxAdd(acc.f, FxMul(c.sec, tri.f)),
                 amb  |-> acc.amb,
                 nok  |-> acc.nok /\ FxGt(c.rc, E6) /\ FxGt(tri.nz, E9),
                 cnt  |-> acc.cnt + 1,
                 fmin |-> IF acc.fmin = << >> THEN tri.f ELSE FxMin(acc.fmin, tri.f),
                 fmax |-> IF acc.fmax = << >> THEN tri.f ELSE FxMax(acc.fmax, tri.f) ]
RibSection(tris, y, r) == FoldLeft(LAMBDA acc, t : AddContribution(acc, t, y, r), Empty, tris)

(* Is the rib in contact?  Area and volume are products with the rib width.    *)
RibTouch(S, w) ==
  IF FxGe(FxMul(S.len, w), E7) THEN "in"
  ELSE IF FxLe(FxMul(FxAdd(S.len, S.amb), w), E9) THEN "out" ELSE "amb"
------------------------------------------------------------------------------
(* Flat ground.  n: unit normal in hub axes, s: signed height of the centre   *)
(* above the plane.                                                           *)
FlatSection(n, s, r) ==
  LET h  == P2Norm(<< n[1], n[3] >>)
  IN  IF FxLe(h, E6) THEN [ k |-> "amb" ]      \* plane parallel to the rib
      ELSE LET k == FxDiv(s, h)                 \* distance centre - chord, signed
           IN  IF FxGe(FxAbs(k), FxAdd(r, E7)) THEN [ k |-> "out" ]
               ELSE IF FxGe(FxAbs(k), FxSub(r, E7)) \/ s[1] <= 0 THEN [ k |-> "amb" ]
               ELSE LET half == FxSqrt(FxSub(FxSq(r), FxSq(k)))
                    IN  [ k |-> "in",
                          len |-> FxTwice(half),
                          dep |-> FxSub(r, k),
                          sec |-> FxSub(FxMul(FxSq(r), FxAngle(k, half)), FxMul(k, half)),
                          pt  |-> << FxNeg(FxDiv(FxMul(k, n[1]), h)), Fx0, FxNeg(FxDiv(FxMul(k, n[3]), h)) >> ]
------------------------------------------------------------------------------
(* Sampling.  The probes run along the world vertical through P0, P1 (centre   *)
(* +- r/10 along hub x) and P2, P3 (centre +- 3/10 w along hub y).             *)
Probe(pose, y, r, w, k) ==
  LET dx == FxDiv(r, FxInt(10))  dy == FxMul(w, FxRat(3, 10))
      o  == IF k = 1 THEN << dx, y, Fx0 >> ELSE IF k = 2 THEN << FxNeg(dx), y, Fx0 >>
            ELSE IF k = 3 THEN << Fx0, FxAdd(y, dy), Fx0 >> ELSE << Fx0, FxSub(y, dy), Fx0 >>
  IN  ToWorld(pose, o)

(* Where the vertical through p meets a triangle: "out", or in with height z.  *)
(* opt: the hit is within 1e-6 (relative) outside of the triangle's border.    *)
ProbeTri(p, v) ==
  LET cross2(a, b, c) == FxSub(FxMul(FxSub(b[1], a[1]), FxSub(c[2], a[2])), FxMul(FxSub(b[2], a[2]), FxSub(c[1], a[1])))
      D  == cross2(v[1], v[2], v[3])
      nn == VCross(VSub(v[2], v[1]), VSub(v[3], v[1]))
      n2 == VNorm(nn)
  IN  IF FxLe(FxAbs(D), FxMul(n2, E6)) THEN [ k |-> "out", steep |-> TRUE ]     \* vertical triangle
      ELSE LET a == FxDiv(cross2(p, v[2], v[3]), D)
               b == FxDiv(cross2(v[1], p, v[3]), D)
               c == FxDiv(cross2(v[1], v[2], p), D)
               lo == FxMin(a, FxMin(b, c))
           IN  IF FxLt(lo, FxNeg(E6)) THEN [ k |-> "out", steep |-> FALSE ]
               ELSE [ k |-> "in", steep |-> FALSE, opt |-> FxLt(lo, FxNeg(E10)),
                      z |-> FxAdd(FxAdd(FxMul(a, v[1][3]), FxMul(b, v[2][3])), FxMul(c, v[3][3])) ]

(* The possible results of one probe: [hit: highest certain hit or << >>,      *)
(* opt: set of << z, f >> of possible hits above it].                           *)
ProbeStart == [ z |-> << >>, f |-> << >>, tie |-> FALSE, opt |-> << >> ]
ProbeAdd(acc, p, tri) ==
  LET h == ProbeTri(p, tri.w)
  IN  IF h.k = "out" THEN acc
      ELSE IF h.opt THEN [ acc EXCEPT !.opt = Append(@, << h.z, tri.f >>) ]
      ELSE IF acc.z = << >> \/ FxGt(h.z, FxAdd(acc.z, E9)) THEN [ acc EXCEPT !.z = h.z, !.f = tri.f, !.tie = FALSE ]
      ELSE IF FxGe(h.z, FxSub(acc.z, E9)) /\ tri.f # acc.f THEN [ acc EXCEPT !.tie = TRUE ]   \* equally high, other friction
      ELSE acc
ProbeGround(tris, p) ==
  LET r == FoldLeft(LAMBDA acc, t : ProbeAdd(acc, p, t), ProbeStart, tris)
  IN  [ r EXCEPT !.opt = SelectSeq(@, LAMBDA o : r.z = << >> \/ FxGt(o[1], FxSub(r.z, E9))) ]

(* Result from the four ground points g (world) and frictions f, centre c.      *)
SampleResult(pose, c, r, w, g, f) ==
  LET pt == VDivS(VAdd(VAdd(g[1], g[2]), VAdd(g[3], g[4])), FxInt(4))
      cr == VCross(VSub(g[1], g[2]), VSub(g[3], g[4]))
      n  == VUnit(cr)
      ey == MCol(pose.r, 2)
      ex == VCross(n, ey)
      ez == VUnit(VCross(ey, ex))               \* unit since ey, ex orthogonal
      d  == FxSub(FxMul(r, FxAbs(VDot(n, ez))), VNorm(VSub(pt, c)))
      k  == FxSub(r, d)
      half == FxSqrt(FxSub(FxSq(r), FxSq(k)))
  IN  [ ok |-> FxGt(VNorm(cr), E9) /\ FxGt(VNorm(ex), E6),
        p |-> pt, n |-> n, d |-> d, f |-> FxDiv(FxAdd(FxAdd(f[1], f[2]), FxAdd(f[3], f[4])), FxInt(4)),
        len |-> FxTwice(half), sec |-> FxSub(FxMul(FxSq(r), FxAngle(k, half)), FxMul(k, half)) ]

(* The vertical through p meets the flat ground with origin o, unit normal n.   *)
ProbeFlat(p, o, n) == << p[1], p[2], FxAdd(o[3], FxDiv(FxAdd(FxMul(n[1], FxSub(o[1], p[1])), FxMul(n[2], FxSub(o[2], p[2]))), n[3])) >>
=============================================================================
