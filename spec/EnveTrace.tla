------------------------------ MODULE EnveTrace ------------------------------
(***************************************************************************)
(* The specification of enve as a state machine over its public interface, *)
(* used to validate traces recorded from the implementation.               *)
(*                                                                         *)
(* Each line of the trace is one call with its arguments and what it        *)
(* returned.  An action updates the abstract state (which shells, meshes,   *)
(* planes, trees and S-function session exist and what they contain) and    *)
(* collects the clauses of the properties the recorded answer does not      *)
(* satisfy.  A behaviour conforms iff no clause is ever collected.          *)
(*                                                                         *)
(* Props: the properties whose clauses are active in this run.              *)
(***************************************************************************)
EXTENDS Tire, Contact, MeshFile, FiniteSets, TLC, TLCExt, Json, IOUtils

AllProps == { "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
              "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27" }
PropsEnv == IF IOEnv.PROPS = "ALL" THEN AllProps ELSE { IOEnv.PROPS }
CONSTANT Props
TraceFile == IOEnv.TRACE
T == TLCEval(ndJsonDeserialize(TraceFile))

VARIABLES i,      \* next line
          sh,     \* shells:  id -> [n, shp, rl, pose, last, gr]
          me,     \* meshes:  id -> [ref, tris]
          fl,     \* planes:  id -> [o, n, f]
          fi,     \* files:   id -> line that describes it
          tr,     \* trees:   id -> line that describes its boxes, 0 = empty
          ses,    \* S-function session: [on, mesh, n, shp, flat]
          bad     \* number of clauses not met so far
vars == << i, sh, me, fl, fi, tr, ses, bad >>

EmptyF == [ x \in {} |-> 0 ]
Put(f, k, v) == (k :> v) @@ f
NoSession == [ on |-> FALSE ]

(* A clause of property p named c: empty when met (or not asked for).          *)
V(p, c, ok) == IF p \in Props THEN (IF ok THEN {} ELSE { << p, c >> }) ELSE {}
AnyOf(ps) == \E p \in ps : p \in Props
If(cond, s) == IF cond THEN s ELSE {}
Has(ev, k) == k \in DOMAIN ev

Z(a) == IsFx(a) /\ a[1] = 0
Positive(a) == IsFx(a) /\ a[1] > 0
Near(a, b, tol) == (a = << >> /\ b = << >>) \/ Close(a, b, tol)     \* also both undefined
VNear(u, v, tol) == Near(u[1], v[1], tol) /\ Near(u[2], v[2], tol) /\ Near(u[3], v[3], tol)
IsPose(p) == IsMat(p.r) /\ IsVec(p.t)
Plus(a, b) == FxAdd(a, b)
EpsEnve == FxRat(1, 67108864)            \* 2^-26, the library's EPSILON_ENVE
MTris(m) == IF m.ref > 0 THEN T[m.ref].tris ELSE m.tris
Ribs(s) == T[sh[s].rl].ribs

------------------------------------------------------------------------------
(* Rib results                                                                *)

Touches(o) == Positive(o.a) \/ Positive(o.v)       \* the rib is reported in contact

Canonical(pose, rib, o) ==                          \* C07
  /\ Z(o.f) /\ Z(o.d) /\ Z(o.a) /\ Z(o.v)
  /\ IsVec(o.p) /\ IsVec(o.n)
  /\ VClose(o.p, ToWorld(pose, << rib.c[1], rib.c[2], FxSub(rib.c[3], rib.r) >>), E9)
  /\ VClose(o.n, MCol(pose.r, 3), E9)

(* The specification's answer for rib j of a shell with pose on the ground:    *)
(* [touch |-> "in"|"out"|"amb", sure |-> values below are determined,          *)
(*  p, n, f, d, a, v (world axes), nok normal determined, fok friction,        *)
(*  alo, ahi bounds of the area, ptol]                                         *)
GeoMeshRef(HT, pose, rib) ==
  LET S == RibSection(HT, rib.c[2], rib.r)
      t == RibTouch(S, rib.w)
      sure == S.amb[1] = 0 /\ t = "in" /\ FxGe(FxMul(S.sec, rib.w), E12)
      pl == IF sure THEN VDivS(S.m, S.sec) ELSE V0
  IN  [ touch |-> t, sure |-> sure,
        alo |-> FxMul(S.len, rib.w), ahi |-> FxMul(FxAdd(S.len, S.amb), rib.w),
        v |-> FxMul(S.sec, rib.w), vok |-> S.amb[1] = 0, cnt |-> S.cnt,
        p |-> ToWorld(pose, VAdd(pl, rib.c)), d |-> FxSub(rib.r, VNorm(pl)),
        nok |-> sure /\ S.nok /\ FxGt(VNorm(S.n), FxMul(E6, S.sec)),
        n |-> IF sure /\ FxPos(VNorm(S.n)) THEN MApply(pose.r, VUnit(S.n)) ELSE V0,
        fok |-> sure, f |-> IF sure THEN FxDiv(S.f, S.sec) ELSE Fx0,
        fmin |-> S.fmin, fmax |-> S.fmax,
        ptol |-> IF sure THEN FxAdd(E7, FxDiv(FxMul(E12, FxRat(1, 10)), S.sec)) ELSE E7 ]

GeoFlatRef(fg, pose, rib) ==
  LET n == DirToHub(pose, fg.n)
      c == ToWorld(pose, rib.c)
      s == VDot(fg.n, VSub(c, fg.o))
      S == FlatSection(n, s, rib.r)
  IN  IF S.k # "in" THEN [ touch |-> S.k, sure |-> FALSE, alo |-> Fx0, ahi |-> FxMul(FxTwice(rib.r), rib.w), vok |-> S.k = "out", v |-> Fx0 ]
      ELSE [ touch |-> "in", sure |-> TRUE, alo |-> FxMul(S.len, rib.w), ahi |-> FxMul(S.len, rib.w),
             v |-> FxMul(S.sec, rib.w), vok |-> TRUE, p |-> ToWorld(pose, VAdd(S.pt, rib.c)), d |-> S.dep,
             nok |-> TRUE, n |-> fg.n, fok |-> TRUE, f |-> fg.f, ptol |-> E7 ]

SampleRef(pose, rib, c, g, f, fok) ==
  LET R == SampleResult(pose, c, rib.r, rib.w, g, f)
  IN  IF ~R.ok THEN [ touch |-> "amb", sure |-> FALSE, alo |-> Fx0, ahi |-> FxMul(FxTwice(rib.r), rib.w), vok |-> FALSE, v |-> Fx0 ]
      ELSE IF FxLe(R.d, FxNeg(E9)) THEN [ touch |-> "out", sure |-> FALSE, alo |-> Fx0, ahi |-> Fx0, vok |-> TRUE, v |-> Fx0 ]
      ELSE IF FxLe(R.d, E7) THEN [ touch |-> "amb", sure |-> FALSE, alo |-> Fx0, ahi |-> FxMul(FxTwice(rib.r), rib.w), vok |-> FALSE, v |-> Fx0 ]
      ELSE [ touch |-> "in", sure |-> TRUE, alo |-> FxMul(R.len, rib.w), ahi |-> FxMul(R.len, rib.w), v |-> FxMul(R.sec, rib.w),
             vok |-> TRUE, p |-> R.p, d |-> R.d, nok |-> TRUE, n |-> R.n, fok |-> fok, f |-> R.f, ptol |-> E7 ]
OutRef == [ touch |-> "out", sure |-> FALSE, alo |-> Fx0, ahi |-> Fx0, vok |-> TRUE, v |-> Fx0 ]
AmbRef(rib) == [ touch |-> "amb", sure |-> FALSE, alo |-> Fx0, ahi |-> FxMul(FxTwice(rib.r), rib.w), vok |-> FALSE, v |-> Fx0 ]

SampMeshRef(HT, pose, rib) ==
  LET c  == ToWorld(pose, rib.c)
      P(k) == Probe(pose, rib.c[2], rib.r, rib.w, k)
      p1 == P(1)  p2 == P(2)  p3 == P(3)  p4 == P(4)
      g1 == ProbeGround(HT, p1)  g2 == ProbeGround(HT, p2)  g3 == ProbeGround(HT, p3)  g4 == ProbeGround(HT, p4)
      miss(g) == g.z = << >> /\ g.opt = << >>
      unsure(g) == g.opt # << >>
      at(p, g) == << p[1], p[2], g.z >>
  IN  IF miss(g1) \/ miss(g2) \/ miss(g3) \/ miss(g4) THEN OutRef
      ELSE IF unsure(g1) \/ unsure(g2) \/ unsure(g3) \/ unsure(g4) THEN AmbRef(rib)
      ELSE SampleRef(pose, rib, c, << at(p1, g1), at(p2, g2), at(p3, g3), at(p4, g4) >>, << g1.f, g2.f, g3.f, g4.f >>,
                     ~(g1.tie \/ g2.tie \/ g3.tie \/ g4.tie))
SampFlatRef(fg, pose, rib) ==
  LET c == ToWorld(pose, rib.c)
      P(k) == ProbeFlat(Probe(pose, rib.c[2], rib.r, rib.w, k), fg.o, fg.n)
  IN  SampleRef(pose, rib, c, << P(1), P(2), P(3), P(4) >>, << fg.f, fg.f, fg.f, fg.f >>, TRUE)

ATol == E9
Relative(v) == FxAdd(E12, FxMul(E6, v))

(* The recorded result o of a rib agrees with the reference R: the set of      *)
(* clauses (labelled by property p) that are not met.                          *)
RibClauses(p, pose, rib, o, R) ==
  V(p, "no contact is reported for a rib out of reach", R.touch = "out" => ~Touches(o))
  \cup V(p, "contact is reported for a rib that touches", R.touch = "in" => Touches(o))
  \cup If(Touches(o) /\ R.touch # "out",
       V(p, "area", IsFx(o.a) /\ FxGe(o.a, FxSub(R.alo, ATol)) /\ FxLe(o.a, FxAdd(R.ahi, ATol)))
       \cup If(R.vok, V(p, "volume", Close(o.v, R.v, Relative(R.v))))
       \cup If(R.sure,
              V(p, "point", IsVec(o.p) /\ VClose(o.p, R.p, R.ptol))
              \cup V(p, "depth", Close(o.d, R.d, R.ptol))
              \cup If(R.nok, V(p, "normal", IsVec(o.n) /\ VClose(o.n, R.n, FxMul(FxInt(10), R.ptol))))
              \cup If(R.fok, V(p, "friction", Close(o.f, R.f, R.ptol)))))

(* Physical admissibility (C27) of a rib result; fs: frictions of the ground.   *)
Admissible(pose, rib, o, fmin, fmax, elems, flatAbove, known) ==
  LET c == ToWorld(pose, rib.c)
      cross == FxMul(FxMul(FxPi, FxSq(rib.r)), rib.w)
  IN  V("C27", "finite", IsVec(o.p) /\ IsVec(o.n) /\ IsFx(o.f) /\ IsFx(o.d) /\ IsFx(o.a) /\ IsFx(o.v))
      \cup If(IsVec(o.p) /\ IsVec(o.n) /\ IsFx(o.f) /\ IsFx(o.d) /\ IsFx(o.a) /\ IsFx(o.v),
         V("C27", "unit normal", Close(VNorm(o.n), Fx1, E9))
         \cup V("C27", "friction within the ground's", IF Touches(o) THEN FxGe(o.f, FxSub(fmin, E9)) /\ FxLe(o.f, FxAdd(fmax, E9)) ELSE Z(o.f))
         \cup V("C27", "area and volume not negative", FxGe(o.a, FxNeg(E12)) /\ FxGe(o.v, FxNeg(E12)))
         \cup V("C27", "volume bound", FxLe(o.v, FxAdd(FxMul(FxHalve(cross), FxInt(elems)), E12)))
         \cup V("C27", "point within the rib's disc", FxLe(VNorm(VSub(o.p, c)), FxAdd(rib.r, E7)))
         \cup V("C27", "depth within the rib", FxLe(o.d, FxAdd(rib.r, E9)) /\ (flatAbove => FxGe(o.d, FxNeg(E9)))))

------------------------------------------------------------------------------
(* Shell-level values from the ribs' (C10).                                    *)
Sum(f(_), n) == FoldLeft(LAMBDA acc, k : FxAdd(acc, f(k)), Fx0, [ k \in 1 .. n |-> k ])
VSum(f(_), n) == FoldLeft(LAMBDA acc, k : VAdd(acc, f(k)), V0, [ k \in 1 .. n |-> k ])
AllFinite(os) == \A k \in 1 .. Len(os) : LET o == os[k] IN IsVec(o.p) /\ IsVec(o.n) /\ IsFx(o.f) /\ IsFx(o.d) /\ IsFx(o.a) /\ IsFx(o.v)
AggClauses(os, g) ==
  LET n  == Len(os)
      av(k) == os[k].v  aa(k) == os[k].a
      tv == Sum(av, n)
      ta == Sum(aa, n)
      plain == FxLt(tv, FxMul(EpsEnve, FxRat(99, 100)))
      wgt == FxGt(tv, FxMul(EpsEnve, FxRat(101, 100)))
      wp(k) == VScale(os[k].v, os[k].p)  wn(k) == VScale(os[k].v, os[k].n)
      wf(k) == FxMul(os[k].v, os[k].f)   wd(k) == FxMul(os[k].v, os[k].d)
      up(k) == os[k].p  un(k) == os[k].n  uf(k) == os[k].f
      N  == FxInt(n)
      P  == IF plain THEN VDivS(VSum(up, n), N) ELSE VDivS(VSum(wp, n), tv)
      S  == IF plain THEN VSum(un, n) ELSE VSum(wn, n)
      F  == IF plain THEN FxDiv(Sum(uf, n), N) ELSE FxDiv(Sum(wf, n), tv)
      D  == IF plain THEN Fx0 ELSE FxDiv(Sum(wd, n), tv)
      nl == IF plain THEN FxDiv(VNorm(S), N) ELSE FxDiv(VNorm(S), tv)
  IN  If(n > 0 /\ AllFinite(os),
        V("C10", "shell volume is the sum", Close(g.v, tv, Relative(tv)))
        \cup V("C10", "shell area is the sum", Close(g.a, ta, Relative(ta)))
        \cup If(plain \/ wgt,
             V("C10", "shell point", IsVec(g.p) /\ VClose(g.p, P, E8))
             \cup If(FxGt(nl, E6), V("C10", "shell normal", IsVec(g.n) /\ VClose(g.n, VUnit(S), E8)))
             \cup V("C10", "shell friction", Close(g.f, F, E8))
             \cup V("C10", "shell depth", Close(g.d, D, E8))))

SameOut(a, b, tol) == /\ VNear(a.p, b.p, tol) /\ VNear(a.n, b.n, tol) /\ Near(a.f, b.f, tol)
                      /\ Near(a.d, b.d, tol) /\ Near(a.a, b.a, tol) /\ Near(a.v, b.v, tol)

(* Frames (C12): F is a 4x4 matrix by rows.                                    *)
FrameClauses(tag, F, pose, p, n, rel, off) ==
  LET col(k) == << F[1][k], F[2][k], F[3][k] >>
      fin == \A r \in 1 .. 4 : \A c \in 1 .. 4 : IsFx(F[r][c])
      hy == MCol(pose.r, 2)
      cr == VCross(hy, n)
      def == IsVec(p) /\ IsVec(n) /\ FxGt(VNorm(cr), E6)
      R  == << << F[1][1], F[1][2], F[1][3] >>, << F[2][1], F[2][2], F[2][3] >>, << F[3][1], F[3][2], F[3][3] >> >>
  IN  If(def,
        V("C12", << tag, "frame finite" >>, fin)
        \cup If(fin,
          V("C12", << tag, "origin is the contact point" >>, VClose(col(4), p, E9))
          \cup V("C12", << tag, "z axis is the contact normal" >>, VClose(col(3), n, E9))
          \cup V("C12", << tag, "x axis is hub y cross normal" >>, VClose(col(1), VUnit(cr), E8))
          \cup V("C12", << tag, "y axis is z cross x" >>, VClose(col(2), VCross(n, VUnit(cr)), E8))
          \cup V("C12", << tag, "last row" >>, Z(F[4][1]) /\ Z(F[4][2]) /\ Z(F[4][3]) /\ F[4][4] = Fx1)
          \cup V("C12", << tag, "relative angles are the ZXY angles of the hub in the frame" >>,
                 IsVec(rel) /\ MClose(RotZXY(<< FxAdd(rel[1], off), rel[2], rel[3] >>), MMul3(MT3(R), pose.r), E7))))

------------------------------------------------------------------------------
(* The shell's box encloses every disc (C05): along axis k the disc with unit   *)
(* axis n reaches r * sqrt(1 - n_k^2) from its centre.                          *)
BoxClauses(box, pose, ribs) ==
  LET a == MCol(pose.r, 2)
      ext(k) == FxSqrt(FxMax(Fx0, FxSub(Fx1, FxSq(a[k]))))
      e1 == ext(1)  e2 == ext(2)  e3 == ext(3)
      e == << e1, e2, e3 >>
      ok(j, k) == LET c == ToWorld(pose, ribs[j].c)[k]
                      x == FxMul(ribs[j].r, e[k])
                  IN  /\ FxLe(box[1][k], FxAdd(FxSub(c, x), E9))
                      /\ FxGe(box[2][k], FxSub(FxAdd(c, x), E9))
  IN  V("C05", "box is defined", IsVec(box[1]) /\ IsVec(box[2]))
      \cup If(IsVec(box[1]) /\ IsVec(box[2]),
           V("C05", "box encloses every rib", \A j \in 1 .. Len(ribs) : \A k \in 1 .. 3 : ok(j, k)))

(* The pose that is reported (C26).                                             *)
PoseClauses(ev, pose) ==
  LET L == ev.last
  IN  V("C26", "transformation", IsPose(ev.pose) /\ MClose(ev.pose.r, pose.r, E11) /\ VClose(ev.pose.t, pose.t, E11))
      \cup V("C26", "transformation matrix", /\ \A r \in 1 .. 3 : VClose(<< L[r][1], L[r][2], L[r][3] >>, pose.r[r], E11) /\ Close(L[r][4], pose.t[r], E11)
                                            /\ Z(L[4][1]) /\ Z(L[4][2]) /\ Z(L[4][3]) /\ L[4][4] = Fx1)
      \cup V("C26", "translation", IsVec(ev.tr) /\ VClose(ev.tr, pose.t, E11))
      \cup V("C26", "linear part", IsMat(ev.lin) /\ MClose(ev.lin, pose.r, E11))
      \cup V("C26", "rotation", IsMat(ev.rot) /\ MClose(ev.rot, pose.r, E9))
      \cup V("C26", "axes", /\ VClose(ev.x, MCol(pose.r, 1), E11) /\ VClose(ev.y, MCol(pose.r, 2), E11) /\ VClose(ev.z, MCol(pose.r, 3), E11))
      \cup If("C26" \in Props, V("C26", "Euler angles", IsVec(ev.eul) /\ MClose(RotZXY(ev.eul), pose.r, E8)))

------------------------------------------------------------------------------
(* Observations of a shell (fields present in the event ev), pose and ribs      *)
(* according to the specification's state.                                      *)
ObsClauses(ev, s, pose, valid) ==
  LET n == Len(Ribs(s))
      ribs == Ribs(s)
  IN
  If(Has(ev, "out"), V("C11", "one entry per rib", Len(ev.out) = n))
  \cup If(Has(ev, "ribs") /\ ev.e # "shell", V("C01", "ribs change only with resize", ev.ribs = ribs) \cup V("C13", "ribs change only with resize", ev.ribs = ribs))
  \cup If(valid /\ Has(ev, "out") /\ Has(ev, "agg") /\ "C10" \in Props, AggClauses(ev.out, ev.agg))
  \cup If(Has(ev, "agg") /\ Has(ev, "agg2"), V("C11", "aggregate queries are pure", SameOut(ev.agg, ev.agg2, E12)))
  \cup If(Has(ev, "out") /\ Has(ev, "vp"),
       V("C11", "vector forms have one entry per rib",
           Len(ev.vp) = n /\ Len(ev.vn) = n /\ Len(ev.vf) = n /\ Len(ev.vd) = n /\ Len(ev.va) = n /\ Len(ev.vv) = n)
       \cup If(Len(ev.vp) = n /\ Len(ev.vn) = n /\ Len(ev.vf) = n /\ Len(ev.vd) = n /\ Len(ev.va) = n /\ Len(ev.vv) = n /\ Len(ev.out) = n,
         V("C11", "vector forms equal the indexed forms",
           \A k \in 1 .. n : /\ ev.vp[k] = ev.out[k].p /\ ev.vn[k] = ev.out[k].n /\ ev.vf[k] = ev.out[k].f
                             /\ ev.vd[k] = ev.out[k].d /\ ev.va[k] = ev.out[k].a /\ ev.vv[k] = ev.out[k].v)))
  \cup If(Has(ev, "vF") /\ Has(ev, "Fi"),
       V("C11", "vector of frames has one entry per rib", Len(ev.vF) = n /\ Len(ev.vg) = n)
       \cup If(Len(ev.vF) = n /\ Len(ev.vg) = n /\ Len(ev.Fi) = n,
         V("C11", "frames and angles in vector form equal the indexed forms", ev.vF = ev.Fi /\ ev.vg = ev.gi)))
  \cup If(valid /\ Has(ev, "F") /\ Has(ev, "agg") /\ IsPose(pose) /\ "C12" \in Props,
       FrameClauses("shell", ev.F, pose, ev.agg.p, ev.agg.n, ev.rg, Fx0))
  \cup If(valid /\ Has(ev, "Fi") /\ Has(ev, "out") /\ IsPose(pose) /\ "C12" \in Props,
       UNION { FrameClauses(k, ev.Fi[k], pose, ev.out[k].p, ev.out[k].n, ev.gi[k], ribs[k].a) : k \in 1 .. n })
  \cup If(Has(ev, "box") /\ ev.e \in { "shell", "setupm", "setupf" } /\ IsPose(pose) /\ "C05" \in Props, BoxClauses(ev.box, pose, ribs))
  \cup If(Has(ev, "pose"), PoseClauses(ev, pose))

------------------------------------------------------------------------------
(* Setup on a ground.                                                          *)
TriV(t) == t.v
Reach(s) == FxAdd(FxSqrt(FxAdd(FxSq(sh[s].shp[1]), FxSq(sh[s].shp[5]))), E6)
BoxAround(p, r) == << VSub(p, << r, r, r >>), VAdd(p, << r, r, r >>) >>
Within(tris, box) == SelectSeq(tris, LAMBDA t : FxTriMeets(t.v, box[1], box[2]))

(* One rib result from ground fg (triangles or plane).                         *)
GeoTris(s, tris, pose) == HubTris(pose, Within(tris, BoxAround(pose.t, Reach(s))))
Refs(s, ev, meth, tris, fg, pose) ==
  LET ribs == Ribs(s)
      mesh == ev.e = "setupm"
      HT == IF ~mesh THEN << >>
            ELSE IF meth = "g" THEN GeoTris(s, tris, pose)
            ELSE HubTris(pose, Within(tris, ev.box))
      ref(rib) == IF mesh THEN (IF meth = "g" THEN GeoMeshRef(HT, pose, rib) ELSE SampMeshRef(HT, pose, rib))
                  ELSE IF meth = "g" THEN GeoFlatRef(fg, pose, rib) ELSE SampFlatRef(fg, pose, rib)
  IN  FoldLeft(LAMBDA acc, rib : Append(acc, ref(rib)), << >>, ribs)

GroundTris(ev) == IF ev.e = "setupm" THEN MTris(me[ev.g]) ELSE << >>
GroundFlat(ev) == IF ev.e = "setupf" THEN fl[ev.g] ELSE << >>

FoldF(tris, op(_, _)) == FoldLeft(LAMBDA acc, t : IF acc = << >> THEN t.f ELSE op(acc, t.f), << >>, tris)

SetupClauses(ev) ==
  LET s == ev.s
      pose == ev.at
      ribs == Ribs(s)
      n == Len(ribs)
      mesh == ev.e = "setupm"
      tris == GroundTris(ev)
      fg == GroundFlat(ev)
      os == IF Has(ev, "out") THEN ev.out ELSE << >>
      R == Refs(s, ev, ev.meth, tris, fg, pose)
      P == IF ev.meth = "s" THEN "C09" ELSE IF mesh THEN "C02" ELSE "C08"
      refsNeeded == AnyOf({ P, "C07" })
      fmin == IF mesh THEN FoldF(tris, FxMin) ELSE fg.f
      fmax == IF mesh THEN FoldF(tris, FxMax) ELSE fg.f
      elems == IF ~mesh \/ ev.meth = "s" THEN 1 ELSE Len(tris)
      above(k) == ~mesh /\ VDot(fg.n, VSub(ToWorld(pose, ribs[k].c), fg.o))[1] > 0
  IN
  V(P, "setup is not refused", ev.thr = 0) \cup V("C06", "setup is not refused", ev.thr = 0)
  \cup V("C07", "setup is not refused", ev.thr = 0)
  \cup V("C13", "setup is not refused", ev.thr = 0) \cup V("C27", "setup is not refused", ev.thr = 0)
  \cup (IF mesh /\ tris = << >> THEN V("C19", "setup on an empty mesh reports no contact", ev.thr = 0 /\ ev.ret = 0) ELSE {})
  \cup If(ev.thr = 0 /\ Len(os) = n,
      V("C06", "true exactly when some rib touches", (ev.ret = 1) <=> (\E k \in 1 .. n : Touches(os[k])))
      \cup V("C07", "canonical output out of contact", \A k \in 1 .. n : Touches(os[k]) \/ Canonical(pose, ribs[k], os[k]))
      \cup (IF mesh /\ tris = << >> THEN V("C19", "no contact on an empty mesh", \A k \in 1 .. n : Canonical(pose, ribs[k], os[k])) ELSE {})
      \cup If(refsNeeded,
             UNION { RibClauses(P, pose, ribs[k], os[k], R[k]) : k \in 1 .. n }
             \cup V("C07", "a rib out of reach reports no contact", \A k \in 1 .. n : R[k].touch = "out" => Canonical(pose, ribs[k], os[k])))
      \cup If("C27" \in Props,
             UNION { Admissible(pose, ribs[k], os[k], fmin, fmax, elems, above(k), TRUE) : k \in 1 .. n }))

------------------------------------------------------------------------------
(* Relations between two recorded setups a, b (lines of the trace).             *)
SecTol(w, v) == IF Positive(v) THEN FxAdd(E7, FxDiv(FxMul(FxMul(E12, FxRat(1, 10)), w), v)) ELSE E7
Map(Q, o) == [ o EXCEPT !.p = IF IsVec(@) THEN ToWorld(Q, @) ELSE @, !.n = IF IsVec(@) THEN MApply(Q.r, @) ELSE @ ]
CloseAV(o, u) == Near(o.a, u.a, ATol) /\ Near(o.v, u.v, FxAdd(E12, FxMul(E9, FxMax(FxAbs(o.v), FxAbs(u.v)))))
CloseAll(rib, o, u) ==
  LET t == SecTol(rib.w, FxMin(o.v, u.v))
      t10 == FxMul(FxInt(10), t)
  IN  /\ CloseAV(o, u)
      /\ VNear(o.p, u.p, t) /\ VNear(o.n, u.n, t10) /\ Near(o.f, u.f, t) /\ Near(o.d, u.d, t)
FiniteOut(o) == IsVec(o.p) /\ IsVec(o.n) /\ IsFx(o.f) /\ IsFx(o.d) /\ IsFx(o.a) /\ IsFx(o.v)
SameTouch(o, u) == Touches(o) <=> Touches(u)

(* Which ribs of the recorded setup a are determined beyond rounding.           *)
Certain1(a) ==
  LET R == Refs(a.s, a, a.meth, GroundTris(a), GroundFlat(a), a.at)
  IN  [ k \in 1 .. Len(R) |-> [ c |-> R[k].touch # "amb" /\ R[k].vok,
                                n |-> ~R[k].sure \/ R[k].nok ] ]
Certain(a, b) ==
  LET A == Certain1(a)
  IN  IF b.e \notin { "setupm", "setupf" } \/ b.thr # 0 THEN A
      ELSE LET B == Certain1(b) IN [ k \in DOMAIN A |-> [ c |-> A[k].c /\ B[k].c, n |-> A[k].n /\ B[k].n ] ]

AllRibs(p, c, a, b, ok(_, _, _)) ==       \* ok(rib, out of a, out of b), or the rib is not determined
  LET ribs == Ribs(a.s)
      n == Len(ribs)
      bad_ == { k \in 1 .. n : ~(FiniteOut(a.out[k]) /\ FiniteOut(b.out[k]) /\ ok(ribs[k], a.out[k], b.out[k])) }
  IN  IF p \notin Props THEN {}
      ELSE IF a.thr # 0 \/ b.thr # 0 THEN V(p, << c, "not refused" >>, FALSE)
      ELSE IF Len(a.out) # n \/ Len(b.out) # n THEN V(p, << c, "one entry per rib" >>, FALSE)
      ELSE IF bad_ = {} THEN {}
      ELSE LET C == Certain(a, b) IN V(p, c, \A k \in bad_ : /\ FiniteOut(a.out[k]) /\ FiniteOut(b.out[k])
                                                      /\ \/ ~C[k].c
                                                         \/ ~C[k].n /\ ok(ribs[k], [ a.out[k] EXCEPT !.n = V0 ], [ b.out[k] EXCEPT !.n = V0 ]))
SameRet(p, c, a, b) ==
  IF p \notin Props \/ a.ret = b.ret THEN {}
  ELSE LET C == Certain(a, b) IN V(p, c, \E k \in DOMAIN C : ~C[k].c)

Identity == [ r |-> MId3, t |-> V0 ]
Exactly(rib, o, u) == CloseAll(rib, o, u) /\ SameTouch(o, u)
RelClauses(ev) ==
  LET a == T[ev.a]
      b == T[ev.b]
      moved(rib, o, u) == SameTouch(o, u) /\ CloseAll(rib, Map(ev.Q, o), u)
      spun(rib, o, u) == SameTouch(o, u) /\ (Touches(o) => CloseAll(rib, o, u))
      split(rib, o, u) == SameTouch(o, u) /\ CloseAV(o, u) /\ (ev.uniform => Near(o.f, u.f, E7))
      k == ev.rel
  IN  CASE k = "pruned"   -> AllRibs("C04", "setup equals every rib against every triangle", a, b, Exactly)
                             \cup SameRet("C04", "same flag as without pruning", a, b)
        [] k = "permuted" -> AllRibs("C04", "order of triangles and vertices does not matter", a, b, Exactly)
                             \cup SameRet("C04", "same flag for any order", a, b)
        [] k = "far"      -> AllRibs("C04", "triangles out of reach do not matter", a, b, Exactly)
                             \cup SameRet("C04", "same flag with triangles out of reach", a, b)
        [] k = "twin"     -> V("C13", "same result as on a fresh shell",
                               /\ a.thr = b.thr
                               /\ a.thr = 0 => /\ a.ret = b.ret /\ Len(a.out) = Len(b.out)
                                               /\ \A j \in 1 .. Len(a.out) : SameOut(a.out[j], b.out[j], E12)
                                               /\ a.ribs = b.ribs)
                             \cup If(Has(a, "agg") /\ Has(b, "agg"), V("C13", "same totals as on a fresh shell", SameOut(a.agg, b.agg, E11)))
        [] k = "moved"    -> AllRibs("C14", "results move with tyre and ground", a, b, moved)
                             \cup SameRet("C14", "same flag after a common motion", a, b)
        [] k = "spun"     -> AllRibs("C14", "spin about the hub axis does not matter", a, b, spun)
                             \cup SameRet("C14", "same flag after spinning", a, b)
        [] k = "split"    -> AllRibs("C15", "subdivision does not change area and volume", a, b, split)
                             \cup SameRet("C15", "same flag after subdivision", a, b)
        [] k = "splits"   -> AllRibs("C15", "subdivision does not change the samples", a, b, Exactly)
                             \cup SameRet("C15", "same flag after subdivision", a, b)
        [] k = "boxed"    -> AllRibs("C05", "setup equals every rib against every triangle", a, b, Exactly)
                             \cup SameRet("C05", "same flag as without the bounding box", a, b)
        [] OTHER -> { << "SPEC", "unknown relation" >> }

------------------------------------------------------------------------------
(* Profile (C01).                                                               *)
ShapeOk(shp) == \A k \in 1 .. 5 : Positive(shp[k])
RibGeometry(ev, shp, n) ==
  V("C01", "rib count", ev.size = n /\ Len(ev.ribs) = n)
  \cup If(Len(ev.ribs) = n /\ "C01" \in Props,
     UNION { LET r == ev.ribs[k]  y == RibY(shp, n, k)
             IN  V("C01", "width of the ribs", Close(r.w, RibWidth(shp, n), E12))
                 \cup V("C01", "position of the ribs", VClose(r.c, << Fx0, y, Fx0 >>, E11))
                 \cup V("C01", "radius of the ribs", Close(r.r, Radius(shp, y), FxAdd(E11, MidSlack(shp, y))))
                 \cup V("C01", "slope angle of the ribs", Close(r.a, SlopeAngle(shp, y), E9)
                                                         \/ (FxLe(FxAbs(y), E7) /\ Z(r.a)))
           : k \in 1 .. n })
ProfClauses(ev) ==
  LET shp == sh[ev.s].shp
      Edge(y) == FxLe(FxAbs(FxSub(FxAbs(y), shp[5])), E12)
  IN  V("C01", "maximum radius and widths", ev.R = shp[1] /\ ev.W = shp[5] /\ ev.MW = shp[5])
      \cup UNION { LET p == ev.at[k]  y == p.y
                   IN  IF ~IsFx(y) THEN {}
                       ELSE IF ~InWidth(shp, y) THEN V("C01", "outside the width is refused", p["in"] = FALSE /\ p.thr = << 1, 1, 1 >>)
                       ELSE V("C01", "inside the width is answered", p["in"] = TRUE /\ p.thr = << 0, 0, 0 >>)
                            \cup If(p.thr = << 0, 0, 0 >>,
                              V("C01", "profile radius", Close(p.r, Radius(shp, y), FxAdd(E11, MidSlack(shp, y))))
                              \cup If(~AtRim(shp, y),
                                V("C01", "profile slope", \/ Close(p.d, Slope(shp, y), FxMul(E9, FxAdd(Fx1, FxAbs(Slope(shp, y)))))
                                                          \/ (FxLe(FxAbs(y), E7) /\ Z(p.d)))
                                \cup V("C01", "profile angle", \/ Close(p.a, SlopeAngle(shp, y), E9)
                                                               \/ (FxLe(FxAbs(y), E7) /\ Z(p.a))))
                              \cup If(FxAbs(y) = shp[3] /\ AtRim(shp, y),
                                V("C01", "profile angle at the rim", Close(FxAbs(p.a), FxHalve(FxPi), E9) /\ p.a[1] = -y[1])))
                 : k \in 1 .. Len(ev.at) }

------------------------------------------------------------------------------
(* Meshes.                                                                      *)
MeshProps(m) == (IF m.src = "rdf" THEN { "C16" } ELSE IF m.src = "obj" THEN { "C17" } ELSE {}) \cup { "C18", "C19" }
VV(ps, c, ok) == UNION { V(p, c, ok) : p \in ps }
FxLeM(a, b, m) == FxLe(a, FxAdd(b, m))

ElementClauses(t) ==                                  \* C20, on a recorded triangle
  LET v == t.v
      e1 == VSub(v[2], v[1])  e2 == VSub(v[3], v[2])  e3 == VSub(v[1], v[3])
      cr == VCross(e1, e2)
      big == FxGt(VNorm(cr), E12)
      l(e) == FxMul(E9, FxAdd(VNorm(e), E9))
      mn(k) == FxMin(v[1][k], FxMin(v[2][k], v[3][k]))
      mx(k) == FxMax(v[1][k], FxMax(v[2][k], v[3][k]))
  IN  If("C20" \in Props,
        If(big, V("C20", "unit normal", IsVec(t.n) /\ Close(VNorm(t.n), Fx1, E9))
                \cup If(IsVec(t.n),
                      V("C20", "normal orthogonal to the edges",
                          FxLe(VNorm(VSub(t.n, IF VDot(t.n, cr)[1] < 0 THEN VNeg(VUnit(cr)) ELSE VUnit(cr))), E6))
                      \cup V("C20", "normal points upwards", FxGe(t.n[3], Fx0))))
        \cup V("C20", "tight box", \A k \in 1 .. 3 : t.lo[k] = mn(k) /\ t.hi[k] = mx(k))
        \cup V("C20", "box carries the identifier", t.bid = t.id))

MobsClauses(ev) ==
  LET m == me[ev.m]
      ex == MTris(m)
      ps == MeshProps(m)
      tol == IF m.src = "list" THEN Fx0 ELSE E9
  IN  VV(ps, "size of the mesh", ev.size = Len(ex) /\ Len(ev.tris) = ev.size)
      \cup VV(ps, "all accessors agree", ev.same)
      \cup If(ev.size = Len(ex) /\ Len(ev.tris) = ev.size,
          VV(ps, "no missing triangle", \A k \in 1 .. ev.size : ev.tris[k].id # -1)
          \cup If(\A k \in 1 .. ev.size : ev.tris[k].id # -1,
            VV(ps, "triangles of the mesh", \A k \in 1 .. ev.size :
                 /\ VClose(ev.tris[k].v[1], ex[k].v[1], tol) /\ VClose(ev.tris[k].v[2], ex[k].v[2], tol) /\ VClose(ev.tris[k].v[3], ex[k].v[3], tol)
                 /\ ev.tris[k].f = ex[k].f)
            \cup UNION { ElementClauses(ev.tris[k]) : k \in 1 .. ev.size }))

QueryClauses(ev) ==
  LET m == me[ev.m]
      ex == MTris(m)
      n == Len(ex)
      d == IF m.src = "list" THEN Fx0 ELSE E9
      dd == << d, d, d >>
      sure == { k \in 1 .. n : FxTriMeets(ex[k].v, VAdd(ev.lo, dd), VSub(ev.hi, dd)) }
      may  == { k \in 1 .. n : FxTriMeets(ex[k].v, VSub(ev.lo, dd), VAdd(ev.hi, dd)) }
      got  == { ev.res[k] : k \in 1 .. Len(ev.res) }
      ps == MeshProps(m) \cup { "C03" }
  IN  VV(ps, "query is not refused", ev.thr = 0)
      \cup If(ev.thr = 0,
          VV(ps, "every triangle that meets the box is returned", sure \subseteq got)
          \cup VV(ps, "only triangles of this mesh that meet the box are returned", got \subseteq may)
          \cup VV(ps, "no triangle is returned twice", Cardinality(got) = Len(ev.res))
          \cup VV(ps, "the flag says whether there is any", ev.ret <=> (Len(ev.res) > 0)))

LoadClauses(ev, r) ==
  LET kp == IF ev.kind = "rdf" THEN "C16" ELSE "C17"
  IN  IF r.ok THEN VV({ kp, "C18", "C19" }, "well-formed file is accepted", ev.thr = 0 /\ ev.ret)
      ELSE V("C18", "malformed file is refused with an exception", ev.thr # 0)

------------------------------------------------------------------------------
(* Trees of boxes (C23).                                                        *)

TreeBoxes(k) == IF tr[k] = 0 THEN << >> ELSE T[tr[k]].boxes
TreexClauses(ev) ==
  LET A == TreeBoxes(ev.k)  B == TreeBoxes(ev.l)
      ex == { p \in (1 .. Len(A)) \X (1 .. Len(B)) : FxBoxMeets(A[p[1]], B[p[2]]) }
      want == IF ev.swap THEN { << p[2], p[1] >> : p \in ex } ELSE ex
      got == { << ev.pairs[j][1], ev.pairs[j][2] >> : j \in 1 .. Len(ev.pairs) }
  IN  V("C23", "intersection is not refused", ev.thr = 0)
      \cup If(ev.thr = 0,
        V("C23", "every intersecting pair is reported", want \subseteq got)
        \cup V("C23", "only intersecting pairs are reported", got \subseteq want)
        \cup V("C23", "no pair is reported twice", Cardinality(got) = Len(ev.pairs)))

CollideClauses(ev) ==                                  \* C23, the collision test
  LET A == TreeBoxes(ev.k)  B == TreeBoxes(ev.l)
      ex == { p \in (1 .. Len(A)) \X (1 .. Len(B)) : FxBoxMeets(A[p[1]], B[p[2]]) }
      want == IF ev.swap THEN { << p[2], p[1] >> : p \in ex } ELSE ex
      got == { << ev.pairs[j][1], ev.pairs[j][2] >> : j \in 1 .. Len(ev.pairs) }
      hit == << ev.x, ev.y >> \in want
  IN  V("C23", "collision test is not refused", ev.thr = 0)
      \cup If(ev.thr = 0,
        V("C23", "collision is found exactly if a pair collides", ev.ret = hit)
        \cup V("C23", "collision asks for intersecting pairs only", got \subseteq want)
        \cup V("C23", "collision asks for each pair at most once", Cardinality(got) = Len(ev.pairs))
        \cup V("C23", "without a collision every pair is asked for", hit \/ want = got))

------------------------------------------------------------------------------
(* S-function (C21, C22).                                                       *)
Col16(F) == << F[1][1], F[2][1], F[3][1], F[4][1], F[1][2], F[2][2], F[3][2], F[4][2],
               F[1][3], F[2][3], F[3][3], F[4][3], F[1][4], F[2][4], F[3][4], F[4][4] >>
Near16(a, b) == \A k \in 1 .. 16 : Near(a[k], b[k], E9)
BusClauses(ev, ref, inmesh) ==
  LET n == ses.n
      k20 == IF n < 20 THEN n ELSE 20
      ps == { "C21", "C22" }
  IN  V("C22", "InMesh", ev.inmesh = FxInt(inmesh)) \cup V("C21", "InMesh", ev.inmesh = FxInt(inmesh))
      \cup VV(ps, "contact frame of the shell", Near16(ev.SA, Col16(ref.F)))
      \cup VV(ps, "depth and friction of the shell", Near(ev.Srho, ref.agg.d, E9) /\ Near(ev.Sf, ref.agg.f, E9))
      \cup VV(ps, "frames of the ribs", \A k \in 1 .. k20 : Near16(ev.RA[k], Col16(ref.Fi[k])))
      \cup VV(ps, "depth and friction of the ribs", \A k \in 1 .. k20 : Near(ev.Rrho[k], ref.out[k].d, E9) /\ Near(ev.Rf[k], ref.out[k].f, E9))
      \cup VV(ps, "unused rib slots are NaN", \A k \in (k20 + 1) .. 20 : ev.nans[k] = 18)
SoutClauses(ev) ==
  LET mOk == ev.meth = Fx0 \/ ev.meth = Fx1
      sOk == ev.sel = Fx0 \/ ev.sel = Fx1
  IN  IF ~mOk \/ ~sOk THEN V("C22", "unknown method or selector is refused", ev.thr # 0)
      ELSE V("C22", "step is not refused", ev.thr = 0) \cup V("C21", "step is not refused", ev.thr = 0)
(* The same setups made through the C++ interface: lines m (mesh) and f (flat)  *)
SrefClauses(ev) ==
  LET o == T[ev.out]
      f == T[ev.f]
      usesMesh == o.sel = Fx0
      m == T[ev.m]
      ref == IF usesMesh /\ m.ret = 1 THEN m ELSE f
  IN  IF /\ ses.on /\ f.at = o.at /\ sh[f.s].shp = ses.shp /\ sh[f.s].n = ses.n /\ fl[f.g] = ses.flat
         /\ f.meth = (IF o.meth = Fx0 THEN "g" ELSE "s")
         /\ usesMesh => m.at = o.at /\ sh[m.s].shp = ses.shp /\ sh[m.s].n = ses.n /\ MTris(me[m.g]) = ses.mesh /\ m.meth = f.meth
      THEN If(o.thr = 0 /\ f.thr = 0 /\ (usesMesh => m.thr = 0), BusClauses(o, ref, IF usesMesh THEN m.ret ELSE 1))
      ELSE { << "SPEC", "the reference is not what the session prescribes" >> }

------------------------------------------------------------------------------
(* Actions.  Every one consumes line i.                                          *)
Report(cs) == /\ bad' = bad + Cardinality(cs)
              /\ (IF cs = {} THEN TRUE ELSE PrintT(<< "REJECT", i, T[i].e, cs >>))
Take(ops) == i <= Len(T) /\ T[i].e \in ops /\ i' = i + 1

Reset == /\ Take({ "reset" })
         /\ sh' = EmptyF /\ me' = EmptyF /\ fl' = EmptyF /\ tr' = EmptyF
         /\ Report({}) /\ UNCHANGED << fi, ses >>
Note == Take({ "scenario", "dump", "place", "skip" })     \* skip: the object was refused when it was made
        /\ Report({}) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>
File == /\ Take({ "file" }) /\ fi' = Put(fi, T[i].id, i)
        /\ Report({}) /\ UNCHANGED << sh, me, fl, tr, ses >>

Shell == /\ Take({ "shell" })
         /\ LET ev == T[i]
                ok == ev.n >= 1 /\ ShapeOk(ev.shape)
            IN  /\ sh' = IF ev.thr # 0 THEN sh
                         ELSE Put(sh, ev.s, [ n |-> ev.n, shp |-> ev.shape, rl |-> i, pose |-> Identity, last |-> 0 ])
                /\ Report(IF ~ok THEN V("C01", "rib count 0 is refused", ev.n >= 1 \/ ev.thr # 0)
                          ELSE V("C01", "valid tyre is accepted", ev.thr = 0)
                               \cup If(ev.thr = 0, RibGeometry(ev, ev.shape, ev.n)
                                                   \cup If(Has(ev, "box") /\ "C05" \in Props, BoxClauses(ev.box, Identity, ev.ribs))
                                                   \cup If(Has(ev, "pose"), PoseClauses(ev, Identity))))
         /\ UNCHANGED << me, fl, fi, tr, ses >>
Resize == /\ Take({ "resize" })
          /\ LET ev == T[i]  s == ev.s
             IN  /\ sh' = IF ev.thr # 0 THEN sh ELSE [ sh EXCEPT ![s].n = ev.n, ![s].rl = i, ![s].last = 0 ]
                 /\ Report(IF ev.n < 1 THEN V("C01", "rib count 0 is refused", ev.thr # 0)
                                            \cup V("C01", "a refused resize changes nothing", ev.size = sh[s].n /\ ev.ribs = Ribs(s))
                           ELSE V("C01", "resize is accepted", ev.thr = 0) \cup If(ev.thr = 0, RibGeometry(ev, sh[s].shp, ev.n)))
          /\ UNCHANGED << me, fl, fi, tr, ses >>
Prof == Take({ "prof" }) /\ Report(ProfClauses(T[i])) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>

Move == /\ Take({ "translate", "rotate", "transform" })
        /\ LET ev == T[i]  q == sh[ev.s].pose
               new == IF ev.e = "transform" THEN ev.to
                      ELSE IF ev.e = "translate" THEN [ q EXCEPT !.t = VAdd(@, MApply(q.r, ev.v)) ]
                      ELSE [ q EXCEPT !.r = MMul3(@, RotAxis(FxCosSin(ev.ang), ev.axis)) ]
           IN  /\ sh' = [ sh EXCEPT ![ev.s].pose = new ]
               /\ Report(V("C26", "pose command is accepted", ev.thr = 0))
        /\ UNCHANGED << me, fl, fi, tr, ses >>

Setup == /\ Take({ "setupm", "setupf" })
         /\ LET ev == T[i]
                good == ev.meth \in { "g", "s" }
            IN  /\ sh' = [ sh EXCEPT ![ev.s].pose = ev.at, ![ev.s].last = IF ev.thr = 0 THEN i ELSE 0 ]
                /\ Report(IF ~good THEN If(ev.thr # 0 \/ ev.e = "setupm", {}) \cup
                                        V("C13", "unknown method is refused", ev.thr # 0 \/ ev.e = "setupm")
                          ELSE SetupClauses(ev)
                               \cup If(ev.thr = 0, ObsClauses(ev, ev.s, ev.at, TRUE)))
         /\ UNCHANGED << me, fl, fi, tr, ses >>
Obs == /\ Take({ "obs" })
       /\ LET ev == T[i]  S == sh[ev.s]
          IN  Report(V("C01", "rib count", ev.size = S.n) \cup V("C13", "rib count", ev.size = S.n)
                     \cup ObsClauses(ev, ev.s, S.pose, S.last # 0)
                     \cup If(S.last # 0 /\ Has(ev, "out") /\ Has(T[S.last], "out"),
                             VV({ "C11", "C13" }, "results change only with a setup", ev.out = T[S.last].out))
                     \cup If(S.last # 0 /\ Has(ev, "agg") /\ Has(T[S.last], "agg"),
                             VV({ "C11", "C13" }, "totals change only with a setup", SameOut(ev.agg, T[S.last].agg, E12))))
       /\ UNCHANGED << sh, me, fl, fi, tr, ses >>
Brute == Take({ "brute" }) /\ Report({}) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>
Relation == Take({ "rel" }) /\ Report(If(T[T[i].a].e # "skip" /\ T[T[i].b].e # "skip", RelClauses(T[i]))) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>

FlatClauses(ev, o, nn, f) ==
  V("C20", "plane keeps friction and origin", ev.of = f /\ ev.oo = o)
  \cup V("C20", "plane has the unit normal", IsVec(ev.on) /\ VClose(ev.on, VUnit(nn), E9) /\ FxGt(ev.on[3], Fx0))
Flat == /\ Take({ "flat" })
        /\ LET ev == T[i]
               ok == IsFx(ev.f) /\ ~FxNegative(ev.f) /\ IsVec(ev.nn) /\ FxGt(ev.nn[3], Fx0)
           IN  /\ fl' = IF ev.thr # 0 THEN fl ELSE Put(fl, ev.g, [ o |-> ev.o, n |-> VUnit(ev.nn), f |-> ev.f ])
               /\ Report(IF ok THEN V("C20", "valid plane is accepted", ev.thr = 0) \cup If(ev.thr = 0, FlatClauses(ev, ev.o, ev.nn, ev.f))
                         ELSE V("C20", "invalid plane is refused", ev.thr # 0))
        /\ UNCHANGED << sh, me, fi, tr, ses >>
FCopy == /\ Take({ "fcopy" })
         /\ LET ev == T[i]  q == fl[ev.from]
            IN  /\ fl' = Put(fl, ev.g, q)
                /\ Report(V("C20", "plane is copied", ev.thr = 0) \cup FlatClauses(ev, q.o, q.n, q.f))
         /\ UNCHANGED << sh, me, fi, tr, ses >>
Tri == /\ Take({ "tri" })
       /\ LET ev == T[i]
              ok == IsFx(ev.f) /\ ~FxNegative(ev.f)
          IN  Report(IF ~ok THEN V("C20", "invalid triangle is refused", ev.thr # 0)
                     ELSE V("C20", "valid triangle is accepted", ev.thr = 0)
                          \cup If(ev.thr = 0,
                               V("C20", "triangle keeps its data", ev.t.id = ev.id /\ ev.t.f = ev.f /\ ev.t.v = ev.v)
                               \cup ElementClauses(ev.t)
                               \cup V("C20", "triangle is copied", ev.copy = ev.t)))
       /\ UNCHANGED << sh, me, fl, fi, tr, ses >>

Mesh(src, ref, tris) == [ src |-> src, ref |-> ref, tris |-> tris ]
MeshE == /\ Take({ "meshe" }) /\ me' = Put(me, T[i].m, Mesh("list", 0, << >>))
         /\ Report(V("C19", "a new mesh is empty", T[i].size = 0)) /\ UNCHANGED << sh, fl, fi, tr, ses >>
MeshV == /\ Take({ "meshv" })
         /\ me' = Put(me, T[i].m, Mesh("list", i, << >>))
         /\ Report(VV({ "C19", "C20" }, "mesh is constructed", T[i].thr = 0)) /\ UNCHANGED << sh, fl, fi, tr, ses >>
Load == /\ Take({ "load", "ctor" })
        /\ LET ev == T[i]
               r == LoadResult(T[fi[ev.file]], ev.kind, ev.at, ev.f)
               was == ev.m \in DOMAIN me
               old == IF was THEN MTris(me[ev.m]) ELSE << >>
           IN  /\ me' = IF ev.thr = 0 THEN Put(me, ev.m, Mesh(ev.kind, 0, r.tris))
                        ELSE IF ~was THEN me
                        ELSE IF ev.size = Len(old) THEN me
                        ELSE Put(me, ev.m, Mesh("list", 0, << >>))
               /\ Report(LoadClauses(ev, r)
                         \cup If(ev.thr # 0 /\ was,
                               VV({ "C18", "C19" }, "after a refused load the mesh is as before or empty", ev.size \in { 0, Len(old) })))
        /\ UNCHANGED << sh, fl, fi, tr, ses >>
MCopy == /\ Take({ "copy" }) /\ me' = Put(me, T[i].m, me[T[i].from])
         /\ Report(V("C19", "copy is accepted", T[i].thr = 0)) /\ UNCHANGED << sh, fl, fi, tr, ses >>
MClear == /\ Take({ "clear" }) /\ me' = Put(me, T[i].m, Mesh("list", 0, << >>))
          /\ Report(V("C19", "clear is accepted", T[i].thr = 0)) /\ UNCHANGED << sh, fl, fi, tr, ses >>
MDrop == /\ Take({ "drop" }) /\ me' = [ x \in DOMAIN me \ { T[i].m } |-> me[x] ]
         /\ Report({}) /\ UNCHANGED << sh, fl, fi, tr, ses >>
MObs == Take({ "mobs" }) /\ Report(MobsClauses(T[i])) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>
Query == Take({ "query" }) /\ Report(QueryClauses(T[i])) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>

Tree == /\ Take({ "tree" })
        /\ tr' = Put(tr, T[i].k, i)
        /\ Report(V("C23", "tree is built", T[i].thr = 0) \cup V("C23", "empty exactly without boxes", T[i]["empty"] <=> (T[i].boxes = << >>)))
        /\ UNCHANGED << sh, me, fl, fi, ses >>
TreeClear == /\ Take({ "treeclear" }) /\ tr' = Put(tr, T[i].k, 0)
             /\ Report(V("C23", "cleared tree is empty", T[i].thr = 0 /\ T[i]["empty"])) /\ UNCHANGED << sh, me, fl, fi, ses >>
TreeC == Take({ "treec" }) /\ Report(If("C23" \in Props, CollideClauses(T[i]))) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>
TreeX == Take({ "treex" }) /\ Report(If("C23" \in Props, TreexClauses(T[i]))) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>

SInit == /\ Take({ "sinit" })
         /\ LET ev == T[i]
                F == T[fi[ev.file]]
                r == IF ev.file = 0 \/ F.ext \notin { "rdf", "obj" } THEN Refused ELSE LoadResult(F, F.ext, Identity, Fx1)
                ok == r.ok /\ ev.n >= 1 /\ IsFx(ev.f) /\ ~FxNegative(ev.f)
            IN  /\ ses' = IF ~ok THEN ses
                          ELSE [ on |-> TRUE, mesh |-> r.tris, n |-> ev.n, shp |-> ev.shape,
                                 flat |-> [ o |-> << Fx0, Fx0, ev.h >>, n |-> << Fx0, Fx0, Fx1 >>, f |-> ev.f ] ]
                /\ Report(IF ok THEN VV({ "C21", "C22" }, "valid initialisation is accepted", ev.thr = 0)
                          ELSE V("C22", "unusable initialisation is refused", ev.thr # 0))
         /\ UNCHANGED << sh, me, fl, fi, tr >>
SOut == Take({ "sout" }) /\ Report(SoutClauses(T[i])) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>
SRef == Take({ "sref" }) /\ Report(If(\A k \in { T[i].out, T[i].m, T[i].f } : T[k].e # "skip", SrefClauses(T[i]))) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>
SEnd == Take({ "send" }) /\ Report(V("C22", "termination is accepted", T[i].thr = 0)) /\ UNCHANGED << sh, me, fl, fi, tr, ses >>

Init == /\ i = 1 /\ sh = EmptyF /\ me = EmptyF /\ fl = EmptyF /\ fi = EmptyF /\ tr = EmptyF
        /\ ses = NoSession /\ bad = 0
Next == \/ Reset \/ Note \/ File \/ Shell \/ Resize \/ Prof \/ Move \/ Setup \/ Obs \/ Brute \/ Relation
        \/ Flat \/ FCopy \/ Tri \/ MeshE \/ MeshV \/ Load \/ MCopy \/ MClear \/ MDrop \/ MObs \/ Query
        \/ Tree \/ TreeClear \/ TreeX \/ TreeC \/ SInit \/ SOut \/ SRef \/ SEnd
Spec == Init /\ [][Next]_vars
(* the whole trace was consumed: some state has i = Len(T) + 1                   *)
Done == TLCGet("stats").diameter = Len(T) + 1
==============================================================================
