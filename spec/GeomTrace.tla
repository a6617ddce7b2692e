------------------------------ MODULE GeomTrace ------------------------------
(***************************************************************************)
(* The geometry layer as a state machine over its public interface, used to *)
(* validate traces recorded from the implementation: stateless queries on   *)
(* one, two or three primitives, boxes, and collections with their history. *)
(*                                                                         *)
(* Primitives are given by small integers and may then be moved by a        *)
(* similarity Q; the answers are compared with Prims, decided exactly on    *)
(* the integers and mapped by Q.                                            *)
(***************************************************************************)
EXTENDS Prims, TLC, TLCExt, Json, IOUtils

AllProps == { "C24", "C25", "C28" }
PropsEnv == IF IOEnv.PROPS = "ALL" THEN AllProps ELSE { IOEnv.PROPS }
CONSTANT Props
T == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES i,      \* next line
          co,     \* collections: id -> [m: sequence of [tag, p], tree: "none" | "fresh" | "stale"]
          bad     \* number of clauses not met so far
vars == << i, co, bad >>

EmptyF == [ x \in {} |-> 0 ]
Put(f, k, v) == (k :> v) @@ f
V(p, c, ok) == IF p \in Props THEN (IF ok THEN {} ELSE { << p, c >> }) ELSE {}
If(cond, s) == IF cond THEN s ELSE {}
Has(ev, k) == k \in DOMAIN ev
Spec_(c, ok) == IF ok THEN {} ELSE { << "SPEC", c >> }
Range(s) == { s[k] : k \in DOMAIN s }

E9 == FxRat(1, 1000000000)
------------------------------------------------------------------------------
(* Placement                                                                  *)
MP(q, v) == IF q.on THEN VAdd(MApply(q.r, v), q.t) ELSE v
MD(q, v) == IF q.on THEN MApply(q.r, v) ELSE v
Factor(q) == IF q.on THEN VNorm(MCol(q.r, 1)) ELSE Fx1
Tol(q) == IF q.on THEN FxMul(E9, FxAdd(FxInt(2), FxAdd(Factor(q), VMaxAbs(q.t)))) ELSE FxTwice(E9)
IP(q, x) == MP(q, FxV(x))
ID(q, d) == MD(q, FxV(d))
RP(q, z) == MP(q, FxP(z))
SameP(u, v, q) == IsVec(u) /\ VClose(u, v, Tol(q))
SameNum(x, y, q) == IsFx(x) /\ Close(x, y, FxMul(Tol(q), FxAdd(Fx1, FxAbs(y))))
GoodD(d) == IsVec(d) /\ VMaxAbs(d)[1] > 0
SameDir(d, e) == IF VMaxAbs(e)[1] = 0 THEN IsVec(d) /\ VMaxAbs(d)[1] = 0 ELSE GoodD(d) /\ VClose(VUnit(d), VUnit(e), E9)          \* parallel, same sense
SameAxis(d, e) == SameDir(d, e) \/ SameDir(VNeg(d), e)
SameSet(s, t, q) == (\A x \in s : \E y \in t : SameP(x, y, q)) /\ (\A y \in t : \E x \in s : SameP(x, y, q))

(* The recorded entity e represents the placed primitive a.                    *)
Is(e, a, q) ==
  e.k = a.k /\
  CASE a.k = "none" -> TRUE
    [] a.k = "pt" -> SameP(e.p, IP(q, a.p), q)
    [] a.k \in { "line", "ray", "plane" } -> SameP(e.p, IP(q, a.p), q) /\ SameDir(e.d, ID(q, a.d))
    [] a.k = "seg" -> SameP(e.p, IP(q, a.p), q) /\ SameP(e.q, IP(q, a.q), q)
    [] a.k = "tri" -> SameP(e.a, IP(q, a.a), q) /\ SameP(e.b, IP(q, a.b), q) /\ SameP(e.c, IP(q, a.c), q)
    [] a.k = "disk" -> SameP(e.p, IP(q, a.p), q) /\ SameDir(e.d, ID(q, a.d)) /\ SameNum(e.r, FxInt(a.r), q)
    [] a.k = "ball" -> SameP(e.p, IP(q, a.p), q) /\ SameNum(e.r, FxInt(a.r), q)

(* The recorded answer o is the common set R (as placed by q).                 *)
Matches(R, o, q) ==
  LET ends(s) == IF o.k = "pt" THEN SameSet({ o.p }, s, q) ELSE o.k = "seg" /\ SameSet({ o.p, o.q }, s, q)
  IN CASE R.k = "amb" -> TRUE
       [] R.k = "none" -> o.k = "none"
       [] R.k = "pts" -> ends({ RP(q, z) : z \in R.s })
       [] R.k = "chord" -> ends({ MP(q, z) : z \in R.s })
       [] R.k = "ray" -> o.k = "ray" /\ SameP(o.p, RP(q, R.p), q) /\ SameDir(o.d, ID(q, R.d))
       [] R.k = "line" -> LET u == ID(q, R.d)
                          IN  o.k = "line" /\ IsVec(o.p) /\ SameAxis(o.d, u) /\ VClose(VCross(VSub(o.p, RP(q, R.p)), VUnit(u)), V0, Tol(q))
       [] R.k = "plane" -> LET u == ID(q, R.d)
                           IN  o.k = "plane" /\ IsVec(o.p) /\ SameAxis(o.d, u) /\ Close(VDot(VSub(o.p, IP(q, R.p)), VUnit(u)), Fx0, Tol(q))
       [] R.k = "tri" -> o.k = "tri" /\ SameSet({ o.a, o.b, o.c }, { IP(q, x) : x \in R.s }, q)
       [] R.k = "disk" -> o.k = "disk" /\ SameP(o.p, RP(q, R.p), q) /\ SameAxis(o.d, ID(q, R.d)) /\ IsFx(o.r) /\ FxPos(o.r) /\ SameNum(FxSq(o.r), R.r2, q)
       [] OTHER -> FALSE

(* Operands that share a line or a plane, or two flat ones, normally have a    *)
(* common piece; where they only touch in one point the answer may be either.  *)
Single(R) == R.k = "pts" /\ Cardinality(R.s) = 1
Touch(a, b, R) == Single(R) /\ ((Planar(a) /\ Planar(b)) \/ (OneD(a) /\ OneD(b) /\ Collinear(a, b)) \/ (OneD(a) # OneD(b) /\ Parallel(a, b)))

------------------------------------------------------------------------------
(* Two primitives                                                             *)
PairClauses(ev) ==
  LET a == IF ev.flip THEN ev.b ELSE ev.a  b == IF ev.flip THEN ev.a ELSE ev.b  q == ev.q
      R == TLCEval(Common(a, b))
      par == Parallel(a, b)
      touch == Touch(a, b, R)
      ok(o) == Matches(R, o, q) \/ (touch /\ o.k = "none")
      no(o) == o.k = "none"
      typedOk(t) ==
        LET kind == t[1]  o == t[2]
        IN  CASE kind = "flag" -> IF R.k = "unsup" THEN (o.k = (IF R.ov THEN "yes" ELSE "no")) ELSE R.k = "amb" \/ touch \/ o.k = (IF R.k = "none" THEN "no" ELSE "yes")
              [] R.k = "amb" -> TRUE
              [] kind \in { "line", "ray", "plane", "tri", "disk" } -> IF R.k = kind THEN ok(o) ELSE no(o)
              [] kind = "pt" /\ a.k = "pt" -> ok(o)
              [] kind = "pt" /\ OneD(a) /\ OneD(b) -> par \/ ~Coplanar(a, b) \/ ok(o)
              [] kind = "pt" -> IF par THEN no(o) ELSE ok(o)
              [] kind = "seg" /\ b.k = "ball" -> ok(o)
              [] kind = "seg" /\ OneD(a) /\ OneD(b) -> IF Collinear(a, b) /\ R.k = "pts" THEN Single(R) \/ ok(o) ELSE no(o)
              [] kind = "seg" /\ (OneD(a) \/ OneD(b)) -> (a.k # "plane" /\ ~Coplanar(a, b)) \/ IF Coplanar(a, b) THEN Single(R) \/ ok(o) ELSE no(o)
              [] kind = "seg" -> IF par THEN no(o) ELSE ok(o)
      rel == << par, Orthogonal(a, b), Coplanar(a, b), Collinear(a, b) >>
      axis == [ k |-> "line", p |-> I0, d |-> IF OneD(ev.a) THEN Dir(ev.a) ELSE I0 ]
  IN  Spec_("non-degenerate operands", Proper(a) /\ Proper(b))
      \cup If("C24" \in Props /\ R.k # "unsup",
             V("C24", << a.k, b.k, "common set, generic query" >>, ok(ev.gen[1]))
             \cup V("C24", << a.k, b.k, "common set, generic query, operands swapped" >>, ok(ev.gen[2])))
      \cup If("C24" \in Props, UNION { V("C24", << a.k, b.k, ev.typed[j][1], "typed query" >>, typedOk(ev.typed[j])) : j \in DOMAIN ev.typed })
      \cup If("C25" \in Props,
             UNION { V("C25", << a.k, b.k, << "parallel", "orthogonal", "coplanar", "collinear" >>[((j - 1) % 4) + 1] >>, ev.relg[j] = rel[((j - 1) % 4) + 1]) : j \in 1 .. 8 }
             \cup UNION { V("C25", << a.k, b.k, << "parallel", "orthogonal", "coplanar", "collinear" >>[j], "typed" >>, ev.relt[j] = rel[j]) : j \in DOMAIN ev.relt }
             \cup If(ev.relv # << >>,
                    V("C25", << "vector", ev.b.k, "parallel" >>, ev.relv[1] = Parallel(axis, ev.b))
                    \cup V("C25", << "vector", ev.b.k, "orthogonal" >>, ev.relv[2] = Orthogonal(axis, ev.b))))

PlanesClauses(ev) ==
  LET a == ev.a  b == ev.b  c == ev.c  q == ev.q
      det == IDot(Nrm(a), ICross(Nrm(b), Nrm(c)))
      num == IAdd(IAdd(IScale(IDot(Nrm(a), Org(a)), ICross(Nrm(b), Nrm(c))), IScale(IDot(Nrm(b), Org(b)), ICross(Nrm(c), Nrm(a)))),
                  IScale(IDot(Nrm(c), Org(c)), ICross(Nrm(a), Nrm(b))))
      x == IF det < 0 THEN Pt(IScale(-1, num), -det) ELSE Pt(num, det)
  IN  IF det = 0 THEN V("C24", "three planes without a single common point", ~ev.r)
      ELSE V("C24", "three planes have a common point", ev.r)
           \cup If(ev.r, V("C24", "common point of three planes", SameP(ev.o, RP(q, x), q)))

------------------------------------------------------------------------------
(* One primitive                                                              *)
Kinds == << "none", "pt", "line", "ray", "plane", "seg", "tri", "disk", "ball" >>
Name == [ none |-> "none", pt |-> "point", line |-> "line", ray |-> "ray", plane |-> "plane", seg |-> "segment", tri |-> "triangle", disk |-> "disk", ball |-> "ball" ]
Clamps(k) == k \in { "pt", "seg", "tri", "disk", "ball" }
Unclamps(k) == k \in { "line", "ray", "plane" }
(* degenerate: no extent where the kind requires one                           *)
Degenerate(a) ==
  CASE a.k = "none" -> TRUE [] a.k = "tri" -> a.a = a.b \/ a.b = a.c \/ a.c = a.a [] OTHER -> ~Proper(a)
KindFlags(k) == [ j \in 1 .. 9 |-> k = Kinds[j] ] \o << Clamps(k), Unclamps(k) >>

Len3(q, u) == FxMul(Factor(q), FxSqrt(FxInt(IDot(u, u))))
Corners(a) == CASE a.k = "pt" -> { a.p } [] a.k = "seg" -> { a.p, a.q } [] a.k = "tri" -> { a.a, a.b, a.c }
Lowest(S) == CHOOSE x \in S : \A y \in S : FxLe(x, y)
Highest(S) == CHOOSE x \in S : \A y \in S : FxLe(y, x)
BoxOk(lo, hi, a, q) ==
  IF a.k \in { "pt", "seg", "tri" } THEN
    LET vs == { IP(q, x) : x \in Corners(a) }
    IN  \A c \in 1 .. 3 : SameNum(lo[c], Lowest({ v[c] : v \in vs }), q) /\ SameNum(hi[c], Highest({ v[c] : v \in vs }), q)
  ELSE LET m == IP(q, a.p)  r == FxInt(a.r)
       IN  \A c \in 1 .. 3 :
             IF a.k = "ball" THEN SameNum(lo[c], FxSub(m[c], r), q) /\ SameNum(hi[c], FxAdd(m[c], r), q)
             ELSE LET u == VUnit(ID(q, a.d))                   \* a disc: contains it, inside the ball's box
                      w == FxMul(r, FxSqrt(FxMax(Fx0, FxSub(Fx1, FxSq(u[c])))))
                  IN  /\ IsFx(lo[c]) /\ FxLe(lo[c], FxAdd(FxSub(m[c], w), Tol(q))) /\ FxGe(lo[c], FxSub(FxSub(m[c], r), Tol(q)))
                      /\ IsFx(hi[c]) /\ FxGe(hi[c], FxSub(FxAdd(m[c], w), Tol(q))) /\ FxLe(hi[c], FxAdd(FxAdd(m[c], r), Tol(q)))
Reversed(a) == IF a.k = "seg" THEN [ a EXCEPT !.p = a.q, !.q = a.p ] ELSE [ a EXCEPT !.d = IScale(-1, a.d) ]
Vert(a, j) == IF j = 1 THEN a.a ELSE IF j = 2 THEN a.b ELSE a.c
Swapped(a, j, l) == [ a EXCEPT !.a = Vert(a, IF j = 1 THEN l ELSE IF l = 1 THEN j ELSE 1),
                               !.b = Vert(a, IF j = 2 THEN l ELSE IF l = 2 THEN j ELSE 2),
                               !.c = Vert(a, IF j = 3 THEN l ELSE IF l = 3 THEN j ELSE 3) ]
OneClauses(ev) ==
  LET a == ev.a  q == ev.q  m == ev.m  P == ev.pr  k == a.k
      C(c, ok) == V("C25", << k, c >>, ok)
      Num(f, x) == SameNum(m[f], x, q)
      Pr(f, Ok(_, _)) == \A j \in DOMAIN P : Ok(P[j], m[f][j])
      dirs == OneD(a) /\ k # "seg"
      uno == IF k = "tri" THEN VUnit(ID(q, Nrm(a))) ELSE IF OneD(a) THEN VUnit(ID(q, Dir(a))) ELSE V0
      hgt(x) == FxDiv(FxMul(Factor(q), FxInt(IDot(ISub(x, a.p), a.d))), FxSqrt(FxInt(IDot(a.d, a.d))))
  IN  C("placed primitive", Is(ev.ent, a, q))
      \cup C("type", m.type = Name[k]) \cup C("kind flags", m.is = KindFlags(k))
      \cup C("degenerate", m.deg <=> Degenerate(a))
      \cup C("bounding box exists exactly for a bounded primitive", m.box[1] = Clamps(k) /\ m.box[4] = Clamps(k))
      \cup If(Clamps(k), C("bounding box", BoxOk(m.box[2], m.box[3], a, q) /\ BoxOk(m.box[5], m.box[6], a, q)))
      \cup If(Proper(a),
        If(k # "pt", C("contains exactly its points", Pr("in", LAMBDA x, o : Rim(a, x, 1) \/ o = In(a, x, 1))) \cup C("equals itself", m.same))
        \cup If(OneD(a), C("direction", SameP(m.v, ID(q, Dir(a)), q)) \cup C("unit direction", SameP(m.u, uno, q)))
        \cup If(dirs \/ k \in { "plane", "disk", "seg" }, C("reversed", Is(m.rev, Reversed(a), q)) \cup C("reversed twice", Is(m.rev2, a, q)))
        \cup If(dirs \/ k \in { "plane", "disk" }, C("normalized", Is(m.nrm, a, q) /\ IsVec(m.nrm.d) /\ Close(VNorm2(m.nrm.d), Fx1, E9)))
        \cup If(k = "plane",
               C("unit normal", SameP(m.u, VUnit(ID(q, a.d)), q))
               \cup C("offset", LET n == ev.ent.d IN Close(m.d, FxNeg(VDot(ev.ent.p, n)), FxMul(Tol(q), FxInt(100))))
               \cup C("signed distance", Pr("sdist", LAMBDA x, o : SameNum(o, hgt(x), q)))
               \cup C("distance", Pr("dist", LAMBDA x, o : SameNum(o, FxAbs(hgt(x)), q)))
               \cup C("squared distance", Pr("dist2", LAMBDA x, o : SameNum(o, FxSq(hgt(x)), q))))
        \cup If(k = "seg",
               C("length", Num("len", Len3(q, Dir(a)))) \cup C("centroid", SameP(m.cen, VMid(IP(q, a.p), IP(q, a.q)), q))
               \cup C("vertices", SameP(m.idx[1], IP(q, a.p), q) /\ SameP(m.idx[2], IP(q, a.q), q)))
        \cup If(k = "tri",
               C("normal", SameP(m.u, uno, q))
               \cup C("perimeter", Num("per", FxAdd(Len3(q, ISub(a.b, a.a)), FxAdd(Len3(q, ISub(a.c, a.b)), Len3(q, ISub(a.a, a.c))))))
               \cup C("area", Num("area", FxHalve(FxMul(FxSq(Factor(q)), FxSqrt(FxInt(IDot(Nrm(a), Nrm(a))))))))
               \cup C("centroid", SameP(m.cen, IF q.on THEN MP(q, VDivS(FxV(IAdd(a.a, IAdd(a.b, a.c))), FxInt(3))) ELSE VDivS(FxV(IAdd(a.a, IAdd(a.b, a.c))), FxInt(3)), q))
               \cup C("vertices", \A j \in 1 .. 3 : SameP(m.idx[j], IP(q, Vert(a, j)), q))
               \cup C("edges", \A j \in 1 .. 3 : Is(m.edges[j], Edges(a)[j], q))
               \cup C("vertex swaps", \A j, l \in 1 .. 3 : Is(m.swaps[3 * (j - 1) + l], Swapped(a, j, l), q))
               \cup C("vertex index is checked", m.oob)
               \cup C("laying plane", m.lay.k = "plane" /\ SameAxis(m.lay.d, ID(q, Nrm(a))) /\ Close(VDot(VSub(m.lay.p, IP(q, a.a)), uno), Fx0, Tol(q)))
               \cup C("barycentric coordinates", Pr("bar", LAMBDA x, o :
                     /\ IsVec(o) /\ Close(FxAdd(o[1], FxAdd(o[2], o[3])), Fx1, E9)
                     /\ LET y == VAdd(VScale(o[1], IP(q, a.a)), VAdd(VScale(o[2], IP(q, a.b)), VScale(o[3], IP(q, a.c))))
                            d == VSub(IP(q, x), y)                         \* what is left is along the normal
                        IN  VClose(VCross(d, uno), V0, FxMul(FxInt(1000), Tol(q))))))
        \cup If(k = "disk", C("perimeter", Num("per", FxMul(FxInt(2 * a.r), FxPi))) \cup C("area", Num("area", FxMul(FxInt(a.r * a.r), FxPi)))
               \cup C("laying plane", m.lay.k = "plane" /\ SameP(m.lay.p, IP(q, a.p), q) /\ SameAxis(m.lay.d, ID(q, a.d))))
        \cup If(k = "ball", C("area", Num("area", FxMul(FxInt(4 * a.r * a.r), FxPi)))
               \cup C("volume", Num("vol", FxDiv(FxMul(FxInt(4 * a.r * a.r * a.r), FxPi), FxInt(3))))))

Shifted(a, t) ==
  CASE a.k = "none" -> a [] a.k = "seg" -> [ a EXCEPT !.p = IAdd(@, t), !.q = IAdd(@, t) ]
    [] a.k = "tri" -> [ a EXCEPT !.a = IAdd(@, t), !.b = IAdd(@, t), !.c = IAdd(@, t) ]
    [] OTHER -> [ a EXCEPT !.p = IAdd(@, t) ]
Still == [ on |-> FALSE ]
MoveClauses(ev) ==
  LET s == Shifted(ev.a, ev.t)
  IN  V("C25", << ev.a.k, "translated" >>, Is(ev.moved, s, Still))
      \cup V("C25", << ev.a.k, "rotated" >>, Is(ev.turned, s, [ on |-> TRUE, r |-> ev.rot, t |-> V0 ]))

------------------------------------------------------------------------------
(* Boxes                                                                      *)
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x
IBox(x, y) == << [ c \in 1 .. 3 |-> Min2(x[c], y[c]) ], [ c \in 1 .. 3 |-> Max2(x[c], y[c]) ] >>
Hull(A, B) == << [ c \in 1 .. 3 |-> Min2(A[1][c], B[1][c]) ], [ c \in 1 .. 3 |-> Max2(A[2][c], B[2][c]) ] >>
Meet(A, B) == << [ c \in 1 .. 3 |-> Max2(A[1][c], B[1][c]) ], [ c \in 1 .. 3 |-> Min2(A[2][c], B[2][c]) ] >>
Meets(A, B) == \A c \in 1 .. 3 : Max2(A[1][c], B[1][c]) <= Min2(A[2][c], B[2][c])
IsBox(e, A) == e # << >> /\ e[1] = FxV(A[1]) /\ e[2] = FxV(A[2])
InBox(A, x) == \A c \in 1 .. 3 : A[1][c] <= x[c] /\ x[c] <= A[2][c]
Gap(A, x) == [ c \in 1 .. 3 |-> IF x[c] < A[1][c] THEN A[1][c] - x[c] ELSE IF x[c] > A[2][c] THEN x[c] - A[2][c] ELSE 0 ]
BoxClauses(ev) ==
  LET A == IBox(ev.a0, ev.a1)  B == IBox(ev.b0, ev.b1)
      S == Hull(A, IBox(ev.b0, ev.b0))
      C(c, ok) == V("C25", << "box", c >>, ok)
      Pr(f, Ok(_, _)) == \A j \in DOMAIN ev.pr : Ok(ev.pr[j], ev[f][j])
      far(x) == FxSqrt(FxInt(LET g == [ c \in 1 .. 3 |-> Max2(IAbs(x[c] - A[1][c]), IAbs(x[c] - A[2][c])) ] IN IDot(g, g)))
  IN  C("corners in any order", IsBox(ev.A, A) /\ IsBox(ev.B, B) /\ ev.ok)
      \cup C("overlap", ev.i[1] = Meets(A, B) /\ ev.i[2] = Meets(A, B))
      \cup C("common box", IF Meets(A, B) THEN IsBox(ev.x, Meet(A, B)) ELSE ev.x = << >>)
      \cup C("merged box", IsBox(ev.M, Hull(A, B)) /\ IsBox(ev.M2, Hull(A, B)))
      \cup C("box of three points", IsBox(ev.C, S) /\ IsBox(ev.C2, S))
      \cup C("translated box", IsBox(ev.T, << IAdd(A[1], ev.t), IAdd(A[2], ev.t) >>))
      \cup C("contains exactly its points", Pr("in", LAMBDA x, o : o = InBox(A, x)))
      \cup C("distance to the box", Pr("near", LAMBDA x, o : Close(o, FxSqrt(FxInt(IDot(Gap(A, x), Gap(A, x)))), E9)))
      \cup C("distance to the far corner", Pr("far", LAMBDA x, o : Close(o, far(x), E9)))
      \cup C("identifiers", ev.ids[1] = 1 /\ ev.ids[2] = 2 /\ ev.ids[3] = 3 /\ ev.ids[4] = 4 /\ ev.ids[5] = 5 /\ ev.ids[6] = 6)

------------------------------------------------------------------------------
(* Collections                                                                *)
Order == << "none", "pt", "line", "ray", "plane", "seg", "tri", "disk", "ball", "clampable", "nonclampable", "degenerated" >>
OfKind(a, w) == CASE w = "clampable" -> Clamps(a.k) [] w = "nonclampable" -> Unclamps(a.k) [] w = "degenerated" -> Degenerate(a) [] OTHER -> a.k = w
Count(m, w) == Cardinality({ j \in DOMAIN m : OfKind(m[j].p, w) })
Members(ev, m) ==
  LET C(c, ok) == V("C28", c, ok)
      n == Len(m)
  IN  C("members", ev.tags = [ j \in 1 .. n |-> m[j].tag ]) \cup C("size", ev.size = n)
      \cup UNION { LET w == Order[j]  x == ev.q[j]
                   IN  C(<< "contains", w >>, x[1] <=> Count(m, w) > 0) \cup C(<< "all are", w >>, x[2] <=> Count(m, w) = n)
                       \cup C(<< "count", w >>, x[3] = Count(m, w)) \cup C(<< "count table", w >>, ev.count[j] = Count(m, w))
                       \cup C(<< "member is", w >>, \A l \in DOMAIN ev.each : l <= n => (ev.each[l][j] <=> OfKind(m[l].p, w)))
                 : j \in 1 .. 12 }
MBox(a) == CASE a.k = "pt" -> IBox(a.p, a.p) [] a.k = "seg" -> IBox(a.p, a.q) [] a.k = "tri" -> Hull(IBox(a.a, a.b), IBox(a.c, a.c))
             [] a.k = "ball" -> << ISub(a.p, << a.r, a.r, a.r >>), IAdd(a.p, << a.r, a.r, a.r >>) >>
Boxable(m) == \A j \in DOMAIN m : Clamps(m[j].p.k)
BoxesClauses(ev, m) ==
  IF ~Boxable(m) THEN V("C28", "a member without a box is refused", ev.thr)
  ELSE V("C28", "boxes of the members", ~ev.thr /\ Len(ev.b) = Len(m) /\
         \A j \in DOMAIN m : ev.b[j][3] = j - 1 /\ BoxOk(ev.b[j][1], ev.b[j][2], m[j].p, Still))

Bag(s) == [ x \in Range(s) |-> Cardinality({ j \in DOMAIN s : s[j] = x }) ]
SearchClauses(ev) ==
  LET A == co[ev.c]  m == A.m
      W == IF ev.how = "coll" THEN co[ev.o].m ELSE << >>
      box == IBox(ev.o[1], ev.o[2])
      hits == IF ev.how = "coll" THEN { x \in (DOMAIN m) \X (DOMAIN W) : Meets(MBox(m[x[1]].p), MBox(W[x[2]].p)) }
              ELSE { x \in DOMAIN m : Meets(MBox(m[x].p), box) }
      built == A.tree # "none" /\ m # << >> /\ (ev.how = "coll" => co[ev.o].tree # "none" /\ W # << >>)
      exp == IF ~built THEN {} ELSE hits
      got == IF ev.how = "coll" THEN [ j \in 1 .. (Len(ev.tags) \div 2) |-> << ev.tags[2 * j - 1], ev.tags[2 * j] >> ] ELSE ev.tags
      tag(x) == IF ev.how = "coll" THEN << m[x[1]].tag, W[x[2]].tag >> ELSE m[x].tag
  IN  Spec_("searched collections have a current tree", A.tree # "stale" /\ (ev.how = "coll" => co[ev.o].tree # "stale"))
      \cup V("C28", "search is accepted", ~ev.thr)
      \cup V("C28", "search says whether there are candidates", ev.r = (exp # {}))
      \cup V("C28", "candidates are the members whose boxes meet",
             Bag(got) = [ y \in { tag(x) : x \in exp } |-> Cardinality({ x \in exp : tag(x) = y }) ] /\ (ev.how # "coll" \/ Len(ev.tags) % 2 = 0))
AllClauses(ev, m) ==
  LET n == Len(m)
      pairs == [ k \in 1 .. (n * (n + 1)) \div 2 |-> CHOOSE x \in (1 .. n) \X (1 .. n) : x[1] <= x[2] /\ k = ((x[1] - 1) * (2 * n + 2 - x[1])) \div 2 + x[2] - x[1] + 1 ]
      R(k) == Common(m[pairs[k][1]].p, m[pairs[k][2]].p)
  IN  If(\A j \in DOMAIN m : m[j].p.k # "none" /\ Proper(m[j].p),
         V("C28", "every pair of members is intersected",
           IF ev.thr THEN \E k \in DOMAIN pairs : R(k).k = "unsup"
           ELSE Len(ev.o) = Len(pairs) /\ \A k \in DOMAIN pairs :
                  R(k).k = "unsup" \/ Matches(R(k), ev.o[k], Still) \/ (Touch(m[pairs[k][1]].p, m[pairs[k][2]].p, R(k)) /\ ev.o[k].k = "none")))

------------------------------------------------------------------------------
Report(cs) == /\ bad' = bad + Cardinality(cs)
              /\ (IF cs = {} THEN TRUE ELSE PrintT(<< "REJECT", i, T[i].e, cs >>))
Take(ops) == i <= Len(T) /\ T[i].e \in ops /\ i' = i + 1
Reset == Take({ "reset" }) /\ co' = EmptyF /\ Report({})
Note == Take({ "scenario" }) /\ Report({}) /\ UNCHANGED co
Pair == Take({ "p_pair" }) /\ Report(PairClauses(T[i])) /\ UNCHANGED co
Three == Take({ "p_planes" }) /\ Report(PlanesClauses(T[i])) /\ UNCHANGED co
One == Take({ "p_one" }) /\ Report(OneClauses(T[i])) /\ UNCHANGED co
Move == Take({ "p_move" }) /\ Report(MoveClauses(T[i])) /\ UNCHANGED co
Box == Take({ "p_box" }) /\ Report(BoxClauses(T[i])) /\ UNCHANGED co

Known(c) == IF c \in DOMAIN co THEN co[c] ELSE [ m |-> << >>, tree |-> "none" ]
Became(ev, m) == co' = Put(co, ev.c, [ m |-> m, tree |-> IF Known(ev.c).tree = "none" THEN "none" ELSE "stale" ]) /\ Report(Members(ev, m))
New == /\ Take({ "p_new" })
       /\ LET ev == T[i]
              m == IF ev.how = 1 THEN Known(ev.c).m \o ev.m ELSE ev.m
              old == IF ev.how = 1 THEN Known(ev.c).tree ELSE "none"
          IN  co' = Put(co, ev.c, [ m |-> m, tree |-> IF old = "none" THEN "none" ELSE "stale" ]) /\ Report(Members(ev, m))
Remove == Take({ "p_remove" }) /\ Became(T[i], SelectSeq(Known(T[i].c).m, LAMBDA x : ~OfKind(x.p, T[i].kind)))
Clear == Take({ "p_clear" }) /\ co' = Put(co, T[i].c, [ m |-> << >>, tree |-> "none" ]) /\ Report(Members(T[i], << >>))
Resize == Take({ "p_resize" }) /\ Became(T[i], SubSeq(Known(T[i].c).m, 1, T[i].n))
Shift == /\ Take({ "p_shift" })
         /\ LET ev == T[i]
                m == [ j \in DOMAIN Known(ev.c).m |-> [ Known(ev.c).m[j] EXCEPT !.p = Shifted(@, ev.t) ] ]
            IN  /\ co' = Put(co, ev.c, [ m |-> m, tree |-> IF Known(ev.c).tree = "none" THEN "none" ELSE "stale" ])
                /\ Report(Members(ev, m) \cup V("C28", "members are translated", Len(ev.ents) = Len(m) /\ \A j \in DOMAIN m : Is(ev.ents[j], m[j].p, Still)))
Boxes == Take({ "p_boxes" }) /\ Report(BoxesClauses(T[i], Known(T[i].c).m)) /\ UNCHANGED co
Build == /\ Take({ "p_build" })
         /\ LET ev == T[i]  m == Known(ev.c).m
            IN  /\ co' = IF Boxable(m) THEN Put(co, ev.c, [ m |-> m, tree |-> "fresh" ]) ELSE co
                /\ Report(V("C28", "tree is built exactly for bounded members", ev.thr <=> ~Boxable(m)))
Search == Take({ "p_search" }) /\ Report(SearchClauses(T[i])) /\ UNCHANGED co
All == Take({ "p_all" }) /\ Report(AllClauses(T[i], Known(T[i].c).m)) /\ UNCHANGED co

Init == i = 1 /\ co = EmptyF /\ bad = 0
Next == \/ Reset \/ Note \/ Pair \/ Three \/ One \/ Move \/ Box \/ New \/ Remove \/ Clear \/ Resize \/ Shift \/ Boxes \/ Build \/ Search \/ All
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(T) + 1
==============================================================================
