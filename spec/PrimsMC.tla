------------------------------- MODULE PrimsMC -------------------------------
(***************************************************************************)
(* What Common of Prims has to satisfy, checked on pairs of lattice          *)
(* primitives: one operand at the origin in a handful of shapes, the other   *)
(* anywhere on the lattice -1 .. 1 (all of them, or a random subset).        *)
(*                                                                         *)
(*  Exact      a point of the half lattice is in the answer iff it is in     *)
(*             both operands, and every corner of the answer is in both      *)
(*  Symmetric  the order of the operands does not matter                     *)
(*  Listing    nor do the order of vertices, the sense of an axis            *)
(*  Moved      a lattice translation or turn of both carries the answer      *)
(*  Monotone   a segment lies in its ray, the ray in its line                *)
(* The pairs are emitted, for replay on the implementation.                  *)
(***************************************************************************)
EXTENDS Prims, TLC, Json, IOUtils, CSV, Randomization

CONSTANTS Per,      \* primitives of each kind for the second operand, 0 = all
          Variant, Emit
C3 == -1 .. 1
Pt3 == { << x, y, z >> : x \in C3, y \in C3, z \in C3 }
Dirs == Pt3 \ { I0 }
E1 == << 1, 0, 0 >>  E2 == << 0, 1, 0 >>
D11 == << 1, 1, 0 >>  D111 == << 1, 1, 1 >>  D012 == << 0, 1, 2 >>
P(k, p, d) == [ k |-> k, p |-> p, d |-> d ]
First ==
  { [ k |-> "pt", p |-> I0 ] } \cup { P(k, I0, d) : k \in { "line", "ray", "plane" }, d \in { E1, D11, D111 } }
  \cup { [ k |-> "seg", p |-> I0, q |-> d ] : d \in { E1, D11, D111, D012 } }
  \cup { [ k |-> "tri", a |-> I0, b |-> v[1], c |-> v[2] ] : v \in { << E1, E2 >>, << D11, << 0, 1, 1 >> >>, << << 2, 0, 0 >>, << 0, 2, 1 >> >> } }
  \cup { [ k |-> "disk", p |-> I0, d |-> d, r |-> 1 ] : d \in { E1, D11 } } \cup { [ k |-> "ball", p |-> I0, r |-> 1 ] }
Pick(S) == IF Per = 0 \/ Cardinality(S) <= Per THEN S ELSE RandomSubset(Per, S)
Second == TLCEval(
  { [ k |-> "pt", p |-> x ] : x \in Pt3 }
  \cup Pick({ P("line", x, d) : x \in Pt3, d \in Dirs }) \cup Pick({ P("ray", x, d) : x \in Pt3, d \in Dirs }) \cup Pick({ P("plane", x, d) : x \in Pt3, d \in Dirs })
  \cup Pick({ [ k |-> "seg", p |-> x, q |-> y ] : x \in Pt3, y \in Pt3 } \ { [ k |-> "seg", p |-> x, q |-> x ] : x \in Pt3 })
  \cup Pick({ t \in { [ k |-> "tri", a |-> x, b |-> y, c |-> z ] : x \in Pt3, y \in Pt3, z \in Pt3 } : Proper(t) })
  \cup Pick({ [ k |-> "disk", p |-> x, d |-> d, r |-> 1 ] : x \in Pt3, d \in Dirs }) \cup { [ k |-> "ball", p |-> x, r |-> 1 ] : x \in Pt3 })

(* Mutations: each must be refuted                                             *)
Com(a, b) ==
  LET R == Common(a, b)
  IN  CASE Variant = "oneend" -> IF R.k = "pts" /\ Cardinality(R.s) = 2 THEN Pts({ CHOOSE z \in R.s : TRUE }) ELSE R
        [] Variant = "beyond" -> IF b.k = "seg" THEN Common(a, [ k |-> "ray", p |-> b.p, d |-> Dir(b) ]) ELSE R
        [] Variant = "ordered" -> IF a.k = "ray" /\ b.k = "ray" /\ R.k = "pts" THEN Common(a, [ k |-> "line", p |-> b.p, d |-> b.d ]) ELSE R
        [] Variant = "facing" -> IF b.k = "tri" /\ OneD(a) /\ IDot(Nrm(b), Dir(a)) > 0 THEN None ELSE R
        [] Variant = "rim" -> IF R.k = "chord" /\ b.k = "ball" /\ a.k = "seg" THEN Common([ k |-> "line", p |-> a.p, d |-> Dir(a) ], b) ELSE R
        [] OTHER -> R

VARIABLES a, b, out
vars == << a, b, out >>

------------------------------------------------------------------------------
FxNear(x, y) == VClose(x, y, FxRat(1, 1000000000))
ToS(R) == IF R.k = "chord" THEN R.s ELSE { FxP(z) : z \in R.s }
SameEnds(s, t) == (\A x \in s : \E y \in t : FxNear(x, y)) /\ (\A y \in t : \E x \in s : FxNear(x, y))
ZSub(z, w) == ISub(IScale(w.d, z.x), IScale(z.d, w.x))
Same(R, S) ==
  \/ R.k = "amb" \/ S.k = "amb" \/ (R.k = "unsup" /\ S.k = "unsup" /\ R.ov = S.ov)
  \/ R.k \in { "pts", "chord" } /\ S.k \in { "pts", "chord" } /\ SameEnds(ToS(R), ToS(S))
  \/ R.k = S.k /\ CASE R.k = "none" -> TRUE
                    [] R.k = "ray" -> R.p = S.p /\ ICross(R.d, S.d) = I0 /\ IDot(R.d, S.d) > 0
                    [] R.k = "line" -> ICross(R.d, S.d) = I0 /\ ICross(ZSub(R.p, S.p), R.d) = I0
                    [] R.k = "plane" -> ICross(R.d, S.d) = I0 /\ IDot(ISub(R.p, S.p), R.d) = 0
                    [] R.k = "tri" -> R.s = S.s
                    [] R.k = "disk" -> R.p = S.p /\ ICross(R.d, S.d) = I0 /\ R.r2 = S.r2
                    [] OTHER -> FALSE

(* Membership of the half-lattice point x/2 in an answer: "y", "n" or "?"       *)
Tell(t) == IF t THEN "y" ELSE "n"
OnSeg(x, z, w) ==                                   \* x/2 between two rational points
  LET u == ISub(IScale(z.d, x), IScale(2, z.x))     \* (x/2 - z) * 2 z.d
      v == ZSub(w, z)                               \* (w - z) * z.d * w.d
  IN  ICross(u, v) = I0 /\ IDot(u, v) >= 0 /\ IDot(u, v) * w.d <= 2 * IDot(v, v)   
InAnswer(R, x) ==
  CASE R.k = "none" -> "n"
    [] R.k \in { "amb", "unsup" } -> "?"
    [] R.k = "pts" -> LET z == CHOOSE y \in R.s : TRUE
                      IN  IF Cardinality(R.s) = 1 THEN Tell(IScale(z.d, x) = IScale(2, z.x))
                          ELSE LET s == R.s
                                   w == CHOOSE y \in s : y # z
                               IN  IF Cardinality(s) > 2 THEN "?" ELSE Tell(OnSeg(x, z, w))
    [] R.k = "chord" -> LET c == FxP([ x |-> x, d |-> 2 ])
                            u == CHOOSE y \in R.s : TRUE
                            w == CHOOSE y \in R.s : y # u
                            d == VSub(w, u)
                        IN  IF Cardinality(R.s) = 1 \/ FxNear(c, u) \/ FxNear(c, w) THEN "?"
                            ELSE Tell(VClose(VCross(VSub(c, u), d), V0, FxRat(1, 1000000)) /\ FxPos(VDot(VSub(c, u), d)) /\ FxPos(VDot(VSub(w, c), d)))
    [] R.k = "line" -> Tell(ICross(ISub(IScale(R.p.d, x), IScale(2, R.p.x)), R.d) = I0)
    [] R.k = "ray" -> Tell(LET u == ISub(IScale(R.p.d, x), IScale(2, R.p.x)) IN ICross(u, R.d) = I0 /\ IDot(u, R.d) >= 0)
    [] R.k = "plane" -> Tell(IDot(ISub(x, IScale(2, R.p)), R.d) = 0)
    [] R.k = "tri" -> "?"
    [] R.k = "disk" -> LET u == ISub(IScale(R.p.d, x), IScale(2, R.p.x))  s == FxDiv(FxInt(IDot(u, u)), FxInt(4 * R.p.d * R.p.d))
                       IN  IF Close(s, R.r2, FxRat(1, 1000000)) THEN "?" ELSE Tell(IDot(u, R.d) = 0 /\ FxLt(s, R.r2))
Half == { << x, y, z >> : x \in -2 .. 2, y \in -2 .. 2, z \in -2 .. 2 }
Exact ==
  LET R == out
  IN  /\ \A x \in Half :
           LET both == In(a, x, 2) /\ In(b, x, 2)
               t == InAnswer(R, x)
           IN  /\ ~(Rim(a, x, 2) \/ Rim(b, x, 2)) => (t = "?" \/ (t = "y") = both)
               /\ (R.k = "unsup" /\ a.k = "tri" /\ b.k = "tri" /\ both) => R.ov
      /\ R.k = "pts" => \A z \in R.s : In(a, z.x, z.d) /\ In(b, z.x, z.d)
      /\ R.k = "pts" => Cardinality(R.s) <= 2
      /\ R.k = "ray" => In(a, R.p.x, R.p.d) /\ In(b, R.p.x, R.p.d)

Symmetric == Same(out, Com(b, a))
Turn(u) == << u[2], u[3], u[1] >>
Each(x, f(_)) == [ c \in DOMAIN x |-> IF c \in { "k", "r" } THEN x[c] ELSE f(x[c]) ]
Rev(x) == CASE x.k \in { "line", "plane", "disk" } -> [ x EXCEPT !.d = IScale(-1, x.d) ]
            [] x.k = "seg" -> [ x EXCEPT !.p = x.q, !.q = x.p ]
            [] x.k = "tri" -> [ x EXCEPT !.a = x.c, !.b = x.a, !.c = x.b ]
            [] OTHER -> x
Mir(x) == IF x.k = "tri" THEN [ x EXCEPT !.a = x.b, !.b = x.a ] ELSE IF x.k \in { "line", "plane", "ray", "disk" } THEN [ x EXCEPT !.d = IScale(2, x.d) ] ELSE x
Listing == Same(out, Com(Rev(a), b)) /\ Same(out, Com(a, Rev(b))) /\ Same(out, Com(Mir(a), Mir(b)))
(* carried answers                                                              *)
Rot3(R) ==
  LET z(p) == [ x |-> Turn(p.x), d |-> p.d ]
  IN  CASE R.k = "pts" -> [ R EXCEPT !.s = { z(p) : p \in @ } ] [] R.k = "chord" -> [ R EXCEPT !.s = { Turn(p) : p \in @ } ]
        [] R.k \in { "ray", "line", "disk" } -> [ R EXCEPT !.p = z(@), !.d = Turn(@) ]
        [] R.k = "plane" -> [ R EXCEPT !.p = Turn(@), !.d = Turn(@) ] [] R.k = "tri" -> [ R EXCEPT !.s = { Turn(p) : p \in @ } ] [] OTHER -> R
Tr == << 1, -2, 1 >>
Shift(x) == [ c \in DOMAIN x |-> IF c \in { "p", "q", "a", "b", "c" } THEN IAdd(x[c], Tr) ELSE x[c] ]
ShiftR(R) ==
  LET z(p) == Pt(IAdd(p.x, IScale(p.d, Tr)), p.d)
  IN  CASE R.k = "pts" -> [ R EXCEPT !.s = { z(p) : p \in @ } ] [] R.k = "chord" -> [ R EXCEPT !.s = { VAdd(p, FxV(Tr)) : p \in @ } ]
        [] R.k \in { "ray", "line", "disk" } -> [ R EXCEPT !.p = z(@) ]
        [] R.k = "plane" -> [ R EXCEPT !.p = IAdd(@, Tr) ] [] R.k = "tri" -> [ R EXCEPT !.s = { IAdd(p, Tr) : p \in @ } ] [] OTHER -> R
Moved == Same(Rot3(out), Com(Each(a, Turn), Each(b, Turn))) /\ Same(ShiftR(out), Com(Shift(a), Shift(b)))
Wider(x) == IF x.k = "seg" THEN P("ray", x.p, Dir(x)) ELSE IF x.k = "ray" THEN P("line", x.p, x.d) ELSE IF x.k \in { "tri", "disk" } THEN P("plane", Org(x), Nrm(x)) ELSE x
Empty(R) == R.k = "none"
Some(R) == R.k \notin { "none", "amb" }
Monotone ==
  /\ (OneD(b) /\ Some(out)) => ~Empty(Com(a, Wider(b)))
  /\ (OneD(a) /\ Some(out)) => ~Empty(Com(Wider(a), b))
  /\ (OneD(a) /\ b.k \in { "tri", "disk" } /\ Some(out)) => ~Empty(Com(a, Wider(b)))

(* Relations: symmetric, carried by turns and listings, and what they say about *)
(* the common set.                                                             *)
Col(x, y) == IF Variant = "slack" THEN OneD(x) /\ OneD(y) /\ Parallel(x, y) ELSE Collinear(x, y)
Ort(x, y) == IF Variant = "oneway" THEN HasDir(x) /\ HasDir(y) /\ IDot(Axis(x), Axis(y)) = 0 ELSE Orthogonal(x, y)
Rels(x, y) == << Parallel(x, y), Ort(x, y), Coplanar(x, y), Col(x, y) >>
Related ==
  LET r == Rels(a, b)
      line(x) == OneD(x)
  IN  /\ r = Rels(b, a) /\ r = Rels(Rev(a), Mir(b)) /\ r = Rels(Each(a, Turn), Each(b, Turn)) /\ r = Rels(Shift(a), Shift(b))
      /\ ~(r[1] /\ r[2]) /\ (r[4] => r[1] /\ r[3]) /\ (r[3] /\ ~(line(a) /\ line(b)) => r[1])
      /\ (a.k = "line" /\ b.k = "line") => ((out.k = "line") = r[4] /\ (out.k # "none") = (r[4] \/ (r[3] /\ ~r[1])))
      /\ (a.k = "line" /\ b.k = "plane") => ((out.k = "line") = r[3] /\ (out.k = "none") = (r[1] /\ ~r[3]))
      /\ (a.k = "plane" /\ b.k = "plane") => ((out.k = "plane") = r[3] /\ (out.k = "none") = (r[1] /\ ~r[3]))
      (* orthogonal to a plane: parallel to every line that is                   *)
      /\ (a.k = "line" /\ b.k = "plane") => r[2] = Parallel(a, [ k |-> "line", p |-> I0, d |-> b.d ])

Start == [ k |-> "none" ]
RelatedOk == b = Start \/ Related
Init == a \in First /\ b = Start /\ out = None
Next == /\ b = Start /\ a' = a
        /\ b' \in { x \in Second : Level(a.k) <= Level(x.k) }
        /\ out' = Com(a, b')
        /\ (Emit => CSVWrite("%1$s", << ToJson([ a |-> a, b |-> b' ]) >>, IOEnv.GEN))
Spec == Init /\ [][Next]_vars
ExactOk == b = Start \/ Exact
SymmetricOk == b = Start \/ Symmetric
ListingOk == b = Start \/ Listing
MovedOk == b = Start \/ Moved
MonotoneOk == b = Start \/ Monotone
==============================================================================
