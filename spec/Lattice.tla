-------------------------------- MODULE Lattice --------------------------------
(***************************************************************************)
(* One rib over small terrains on a lattice: the reference section of         *)
(* Contact, and the pass the implementation makes over the candidates.        *)
(*                                                                         *)
(* The tyre has radius R and stands in the identity pose; a terrain is one    *)
(* triangle, two with a common edge, or a plane patch in two pieces.  The     *)
(* pass picks the candidates by boxes and then adds one triangle per step,    *)
(* with the angles of the ends of the segment about the hub (atan2).          *)
(*                                                                         *)
(*  Agrees     when the pass is over its sums are those of the reference      *)
(*  Bounded    every contribution and every sum is within its geometric bound *)
(*  Order      order and listing of the triangles do not matter               *)
(*  Split      splitting triangles changes neither length nor area            *)
(*  Carried    turning, mirroring or moving tyre and terrain carries the      *)
(*             section                                                       *)
(*  Bystander  a triangle beyond the tyre or on one side of the rib adds      *)
(*             nothing                                                       *)
(*  Planar     a patch as large as the tyre is as flat ground                 *)
(*  Probes     what the verticals of the sampling method meet does not change *)
(*             with order and splitting, and is the plane on a patch          *)
(* The terrains are emitted, for replay on the implementation.                *)
(***************************************************************************)
EXTENDS Contact, FiniteSets, TLC, Json, IOUtils, CSV, Randomization

CONSTANTS Per, Kids,      \* terrains taken at random (0 = all), second triangles of each
          Variant, Emit

X == { -3, -2, -1, 0, 1, 3 }   Y == { -1, 0, 1 }   Z == { -2, -1, 0, 1 }
Pts == { << x, y, z >> : x \in X, y \in Y, z \in Z }
R == FxInt(2)
W == FxHalf
RibY == FxRat(1, 4)                         \* the rib stands off the lattice,
RibY0 == Fx0                                \* and another one on it
Hub == [ r |-> MId3, t |-> V0 ]

IArea(t) == LET u(i, j) == t[i][1] * t[j][2] - t[j][1] * t[i][2] IN u(1, 2) + u(2, 3) + u(3, 1)   \* of the plan view, doubled
Proper(t) == IArea(t) # 0
Pick(n, S) == IF n = 0 \/ Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
(* a random triple of different points: not all of them exist as a set first   *)
Singles == { << t >> : t \in { t \in Pick(3 * Per, Pts \X Pts \X Pts) : Proper(t) } }
Patches == { << << << -4, -2, p[1] - 4 * p[2] - 2 * p[3] >>, << 4, -2, p[1] + 4 * p[2] - 2 * p[3] >>, << 4, 2, p[1] + 4 * p[2] + 2 * p[3] >> >>,
                << << -4, -2, p[1] - 4 * p[2] - 2 * p[3] >>, << 4, 2, p[1] + 4 * p[2] + 2 * p[3] >>, << -4, 2, p[1] - 4 * p[2] + 2 * p[3] >> >> >>
             : p \in { -3, -2, -1 } \X { -1, 0, 1 } \X { -1, 0, 1 } }
(* A second triangle over the edge 1-2 of the first                            *)
Folds(t) == { << t, << t[2], t[1], p >> >> : p \in Pick(Kids, { p \in Pts : Proper(<< t[2], t[1], p >>) /\ p # t[3] }) }

FV(p) == << FxInt(p[1]), FxInt(p[2]), FxInt(p[3]) >>
Fric(i) == IF i = 1 THEN FxHalf ELSE IF i = 2 THEN Fx1 ELSE FxRat(1, 4)
Ground(ts) == [ i \in 1 .. Len(ts) |-> [ v |-> << FV(ts[i][1]), FV(ts[i][2]), FV(ts[i][3]) >>, f |-> Fric(i) ] ]

VARIABLES ts,     \* the terrain
          y,      \* the rib
          todo,   \* candidates not yet passed
          acc     \* sums
vars == << ts, y, todo, acc >>
------------------------------------------------------------------------------
(* The pass.                                                                   *)
Zero == [ len |-> Fx0, sec |-> Fx0, m |-> V0, n |-> V0, f |-> Fx0, hit |-> FALSE ]
Span(t, k) == [ lo |-> FxMin(t[1][k], FxMin(t[2][k], t[3][k])), hi |-> FxMax(t[1][k], FxMax(t[2][k], t[3][k])) ]
BoxLo == << FxNeg(R), FxSub(RibY0, W), FxNeg(R) >>
BoxHi == << R, FxAdd(RibY, W), R >>
InBox(p) == \A k \in 1 .. 3 : FxLe(BoxLo[k], p[k]) /\ FxLe(p[k], BoxHi[k])
Meets(t) == IF Variant = "corners" THEN InBox(t[1]) \/ InBox(t[2]) \/ InBox(t[3])
            ELSE \A k \in 1 .. 3 : FxLe(Span(t, k).lo, BoxHi[k]) /\ FxLe(BoxLo[k], Span(t, k).hi)
Candidates(g) == LET ix == SelectSeq([ i \in 1 .. Len(g) |-> i ], LAMBDA i : Meets(g[i].v))
                 IN  IF Variant = "cap" /\ Len(ix) > 1 THEN << ix[1] >> ELSE ix

(* Ends of the segment of a triangle inside the rib, or << >>                   *)
Cut(t, yy) ==
  LET d == [ i \in 1 .. 3 |-> FxSub(t[i][2], yy) ]
      on == { i \in 1 .. 3 : d[i][1] = 0 }
      ed == { e \in { << 1, 2 >>, << 2, 3 >>, << 3, 1 >> } : d[e[1]][1] * d[e[2]][1] < 0 }
      pt == SetToSeq({ XZ(t[i]) : i \in on } \cup { CutEdge(t[e[1]], t[e[2]], d[e[1]], d[e[2]]) : e \in ed })
  IN  IF (\A i \in 1 .. 3 : d[i][1] <= 0) /\ Variant # "bothsides" THEN << >>      \* an edge in the plane: of the positive side
      ELSE IF Len(pt) # 2 THEN << >> ELSE IF Variant = "noclip" THEN pt ELSE ClipDisc(pt[1], pt[2], R)

Turned(a, b) ==                              \* angles of the ends, in order, less than pi apart
  LET lo == FxMin(a, b)  hi == FxMax(a, b)
  IN  IF FxGt(FxSub(hi, lo), FxPi) /\ Variant # "branch" THEN << hi, FxAdd(lo, FxTwice(FxPi)) >> ELSE << lo, hi >>
UpN(t) == LET n == VUnit(VCross(VSub(t[2], t[1]), VSub(t[3], t[1]))) IN IF n[3][1] < 0 /\ Variant # "winding" THEN VNeg(n) ELSE n
Bearing(p) == IF p[1][1] = 0 /\ p[2][1] = 0 THEN Fx0 ELSE FxAtan2(p[2], p[1])
Add(a, tri, yy) ==
  LET s == Cut(tri.v, yy)
  IN  IF s = << >> THEN a
      ELSE LET t  == Turned(Bearing(s[1]), Bearing(s[2]))
               tc == FxHalve(FxAdd(t[1], t[2]))
               td == FxHalve(FxSub(t[2], t[1]))
               ln == P2Norm(P2Sub(s[2], s[1]))
               ra == P2Norm(s[1])  rb == P2Norm(s[2])
               cs == FxCosSin(tc)  cd == FxCosSin(td)
               rc == FxMin(R, FxMax(Fx0, FxMul(FxDiv(FxTwice(FxMul(ra, rb)), FxMax(E9, FxAdd(ra, rb))), IF Variant = "chordmid" THEN Fx1 ELSE cd[1])))
               sec == FxSub(FxMul(FxSq(R), td), FxHalve(FxMul(FxMul(ra, rb), FxCosSin(FxTwice(td))[2])))
               wt == IF Variant = "bylength" THEN ln ELSE sec
               p  == << FxMul(rc, cs[1]), Fx0, FxMul(rc, cs[2]) >>
               rd == << FxNeg(cs[1]), Fx0, FxNeg(cs[2]) >>
               nn == VUnit(VAdd(rd, << Fx0, UpN(tri.v)[2], Fx0 >>))
           IN  [ len |-> FxAdd(a.len, ln), sec |-> FxAdd(a.sec, sec), m |-> VAdd(a.m, VScale(wt, p)),
                 n |-> VAdd(a.n, VScale(wt, nn)),
                 f |-> IF Variant = "lastfriction" THEN FxMul(FxAdd(a.sec, sec), tri.f) ELSE FxAdd(a.f, FxMul(wt, tri.f)), hit |-> TRUE ]

Start == << >>
Init == ts = Start /\ y \in { RibY, RibY0 } /\ todo = << >> /\ acc = Zero
Begin(t) == /\ ts' = t /\ todo' = Candidates(Ground(t)) /\ acc' = Zero /\ UNCHANGED y
            /\ ((Emit /\ y = RibY) => CSVWrite("%1$s", << ToJson([ ts |-> t ]) >>, IOEnv.GEN))
Lay == ts = Start /\ \E t \in TLCEval(Singles) : Begin(t)
LayPatch == ts = Start /\ \E t \in Patches : Begin(t)
Fold == Len(ts) = 1 /\ todo = << >> /\ \E t \in Folds(ts[1]) : Begin(t)
Step == /\ ts # Start /\ todo # << >>
        /\ acc' = Add(acc, Ground(ts)[todo[1]], y) /\ todo' = Tail(todo) /\ UNCHANGED << ts, y >>
Next == Lay \/ LayPatch \/ Fold \/ Step
Spec == Init /\ [][Next]_vars

Over == ts # Start /\ todo = << >>
------------------------------------------------------------------------------
Sec(g) == RibSection(HubTris(Hub, g), y, R)
Near(a, b) == Close(a, b, E9)
VNear(a, b) == VClose(a, b, E8)
Clear(S) == S.amb[1] = 0
Same(S, T) == (Clear(S) /\ Clear(T)) => Near(S.len, T.len) /\ Near(S.sec, T.sec) /\ VNear(S.m, T.m) /\ (S.nok => VNear(S.n, T.n)) /\ Near(S.f, T.f)

Agrees ==
  Over => LET S == Sec(Ground(ts))
          IN  Clear(S) => /\ Near(S.len, acc.len) /\ Near(S.sec, acc.sec) /\ VNear(S.m, acc.m) /\ (S.nok => VNear(S.n, acc.n)) /\ Near(S.f, acc.f)
                          /\ (RibTouch(S, W) = "in") => acc.hit

Bounded ==
  Over => LET g == Ground(ts)  S == Sec(g)
              lim(k) == FxMul(FxInt(k), FxHalve(FxMul(FxPi, FxSq(R))))
              n == Len(g)
          IN  /\ S.len[1] >= 0 /\ FxLe(S.len, FxAdd(FxInt(4 * n), E9))
              /\ FxLe(FxNeg(E9), S.sec) /\ FxLe(S.sec, FxAdd(lim(n), E9))
              /\ (FxGt(S.sec, E6) => FxLe(S.fmin, FxAdd(FxDiv(S.f, S.sec), E6)) /\ FxLe(FxDiv(S.f, S.sec), FxAdd(S.fmax, E6)))
              /\ (FxGt(S.sec, E6) => FxLe(VNorm(VDivS(S.m, S.sec)), FxAdd(R, E6)))
              /\ S.cnt <= n

Rot1(t) == << t[2], t[3], t[1] >>
Swap(t) == << t[2], t[1], t[3] >>
On(g, F(_)) == [ i \in 1 .. Len(g) |-> [ g[i] EXCEPT !.v = F(@) ] ]
Order ==
  Over => LET g == Ground(ts)  S == Sec(g)
          IN  Same(S, Sec(Reverse(g))) /\ Same(S, Sec(On(g, Rot1))) /\ Same(S, Sec(On(g, Swap)))

(* Splitting at the middle of an edge and at the centroid                       *)
Mid(t) == << << t[1], t[2], VMid(t[2], t[3]) >>, << t[1], VMid(t[2], t[3]), t[3] >> >>
Ctr(t) == LET c == VDivS(VAdd(t[1], VAdd(t[2], t[3])), FxInt(3)) IN << << t[1], t[2], c >>, << t[2], t[3], c >>, << t[3], t[1], c >> >>
Broken(g, F(_)) == FoldLeft(LAMBDA a, tri : a \o [ i \in 1 .. Len(F(tri.v)) |-> [ tri EXCEPT !.v = F(tri.v)[i] ] ], << >>, g)
Split ==
  Over => LET g == Ground(ts)  S == Sec(g)
              ok(h) == LET T == Sec(h) IN (Clear(S) /\ Clear(T)) => Near(S.len, T.len) /\ Near(S.sec, T.sec) /\ Near(S.f, T.f)
          IN  ok(Broken(g, Mid)) /\ ok(Broken(g, Ctr)) /\ ok(Broken(g, LAMBDA t : Mid(Rot1(t))))

(* Turns about the hub by a right angle and by the angle (3,4,5); the mirror     *)
(* image; a motion of everything.                                               *)
C345 == << FxRat(3, 5), FxRat(4, 5) >>
TurnM == { RotY(<< Fx0, Fx1 >>), RotY(C345), M3(FxNeg(Fx1), Fx0, Fx0, Fx0, Fx1, Fx0, Fx0, Fx0, Fx1) }
Carried ==
  Over => LET g == Ground(ts)  S == Sec(g)
              turn(m) == LET T == Sec(On(g, LAMBDA t : << MApply(m, t[1]), MApply(m, t[2]), MApply(m, t[3]) >>))
                         IN  (Clear(S) /\ Clear(T)) => Near(S.len, T.len) /\ Near(S.sec, T.sec) /\ Near(S.f, T.f) /\ VNear(MApply(m, S.m), T.m)
              pose == [ r |-> RotZ(C345), t |-> << FxInt(7), FxInt(-3), FxInt(2) >> ]      \* keeps the up normals
              moved == RibSection(HubTris(pose, On(g, LAMBDA t : << ToWorld(pose, t[1]), ToWorld(pose, t[2]), ToWorld(pose, t[3]) >>)), y, R)
          IN  (\A m \in TurnM : turn(m)) /\ Same(S, moved)

Bystander ==
  Over => LET g == Ground(ts)  S == Sec(g)
              far == << << FxInt(3), FxInt(-5), FxInt(-9) >>, << FxInt(5), FxInt(5), FxInt(9) >>, << FxInt(3), FxInt(5), FxInt(-9) >> >>
              low == << << FxInt(-9), FxInt(-9), FxRat(-21, 10) >>, << FxInt(9), FxInt(-9), FxRat(-21, 10) >>, << FxInt(0), FxInt(9), FxRat(-21, 10) >> >>
              side == << << FxInt(-3), FxRat(1, 2), FxInt(-1) >>, << FxInt(3), FxRat(1, 2), FxInt(-1) >>, << FxInt(0), FxInt(2), FxInt(0) >> >>
              with(t) == << [ v |-> t, f |-> Fx1 ] >> \o g
          IN  Same(S, Sec(with(far))) /\ Same(S, Sec(with(low))) /\ Same(S, Sec(with(side)))

IsPatch == ts \in Patches
Planar ==
  (Over /\ IsPatch) =>
     LET g == Ground(ts)  S == Sec([ i \in 1 .. 2 |-> [ g[i] EXCEPT !.f = Fx1 ] ])
         n == UpNormal(g[1].v)
         F == FlatSection(n, VDot(n, VSub(<< Fx0, y, Fx0 >>, g[1].v[1])), R)
     IN  (F.k # "amb" /\ Clear(S)) =>
           IF F.k = "out" THEN S.cnt = 0
           ELSE /\ Near(F.len, S.len) /\ Near(F.sec, S.sec)
                /\ (S.cnt = 1 => VNear(VDivS(S.m, S.sec), F.pt) /\ Near(FxSub(R, VNorm(F.pt)), F.dep))

Probes ==
  Over => LET g == Ground(ts)
              pr(h, k) == ProbeGround(HubTris(Hub, h), Probe(Hub, y, R, W, k))
              same(p, q) == (p.opt = << >> /\ q.opt = << >>) => (p.z = << >>) = (q.z = << >>) /\ (p.z # << >> => Near(p.z, q.z) /\ (p.tie \/ q.tie \/ p.f = q.f))
          IN  \A k \in 1 .. 4 :
                LET p == pr(g, k)
                IN  /\ same(p, pr(Reverse(g), k)) /\ same(p, pr(On(g, Swap), k)) /\ same(p, pr(Broken(g, Ctr), k)) /\ same(p, pr(Broken(g, Mid), k))
                    /\ IsPatch => p.z # << >> /\ Near(p.z, ProbeFlat(Probe(Hub, y, R, W, k), g[1].v[1], UpNormal(g[1].v))[3])
================================================================================
