------------------------------ MODULE PoseLife ------------------------------
(***************************************************************************)
(* The hub pose (C26), on the 24 rotations of the cube and a grid of        *)
(* positions.  `pose` is what the implementation keeps: a matrix and a      *)
(* vector, composed on the right by translate and rotate and replaced by    *)
(* transform and setup.  `mark` is the physical description it has to agree *)
(* with: where three points fixed to the hub are in the world, moved along  *)
(* the hub's own axes by translate and turned about an axis of the hub      *)
(* through the hub's centre by rotate.                                      *)
(*                                                                         *)
(* The rotations include all those at which z-x-y Euler angles are singular.*)
(* Variants other than "asis" must be refuted.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Reach, MaxLen, Variant, Emit, EmitFrom

Add(u, v) == << u[1] + v[1], u[2] + v[2], u[3] + v[3] >>
Sub(u, v) == << u[1] - v[1], u[2] - v[2], u[3] - v[3] >>
Neg(u) == << -u[1], -u[2], -u[3] >>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Scale(k, u) == << k * u[1], k * u[2], k * u[3] >>
Cross(u, v) == << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
Col(m, k) == << m[1][k], m[2][k], m[3][k] >>
App(m, v) == << Dot(m[1], v), Dot(m[2], v), Dot(m[3], v) >>
Mul(a, b) == [ r \in 1 .. 3 |-> [ c \in 1 .. 3 |-> Dot(a[r], Col(b, c)) ] ]
Id == << << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >> >>
E(k) == Id[k]
(* matrix of the quarter turn about basis vector k                            *)
Quarter(k) == CASE k = 1 -> << << 1, 0, 0 >>, << 0, 0, -1 >>, << 0, 1, 0 >> >>
                [] k = 2 -> << << 0, 0, 1 >>, << 0, 1, 0 >>, << -1, 0, 0 >> >>
                [] OTHER -> << << 0, -1, 0 >>, << 1, 0, 0 >>, << 0, 0, 1 >> >>
RECURSIVE Turn(_, _)
Turn(k, q) == IF q = 0 THEN Id ELSE Mul(Quarter(k), Turn(k, q - 1))
(* a quarter turn of p about the unit direction d through c (Rodrigues)       *)
TurnPoint(p, c, d) == LET u == Sub(p, c) IN Add(c, Add(Scale(Dot(d, u), d), Cross(d, u)))
RECURSIVE TurnPointN(_, _, _, _)
TurnPointN(p, c, d, q) == IF q = 0 THEN p ELSE TurnPointN(TurnPoint(p, c, d), c, d, q - 1)

Rots == LET R0 == { Id }
            S(X) == X \cup { Mul(m, Quarter(k)) : m \in X, k \in 1 .. 3 }
        IN  S(S(S(S(S(R0)))))
ASSUME Cardinality(Rots) = 24
Coord == -Reach .. Reach
Home == { << x, y, z >> : x \in Coord, y \in Coord, z \in Coord }
Body == << << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 2 >> >>
Place(p) == [ k \in 1 .. 3 |-> Add(App(p.r, Body[k]), p.t) ]

VARIABLES pose, mark, hist
vars == << pose, mark, hist >>
View == << pose, mark >>
Do(op) == /\ Len(hist) < MaxLen /\ hist' = Append(hist, op)
          /\ ((Emit /\ Len(hist') >= EmitFrom) => CSVWrite("%1$s", << ToJson(hist') >>, IOEnv.GEN))
centre == mark[1]
axis(k) == CASE k = 1 -> Sub(mark[2], mark[1])
             [] OTHER -> LET x == Sub(mark[2], mark[1])
                             w == Sub(mark[3], mark[1])                \* y + 2 z of the hub
                             c == Cross(x, w)                          \* z - 2 y
                             \* y = (w - 2 c) / 5 :  w - 2c = y + 2z - 2z + 4y
                             s == Sub(w, Scale(2, c))
                             y == << s[1] \div 5, s[2] \div 5, s[3] \div 5 >>
                         IN  IF k = 2 THEN y ELSE Cross(x, y)

Translate(k, d) ==
  LET v == Scale(d, E(k)) IN
  /\ pose' = [ pose EXCEPT !.t = Add(@, IF Variant = "worldaxes" THEN v ELSE App(pose.r, v)) ]
  /\ mark' = [ j \in 1 .. 3 |-> Add(mark[j], Scale(d, axis(k))) ]
  /\ mark'[1] \in Home
  /\ Do([ op |-> "translate", k |-> k, d |-> d ])
Rotate(k, q) ==
  /\ pose' = CASE Variant = "left" -> [ pose EXCEPT !.r = Mul(Turn(k, q), @) ]
               [] Variant = "origin" -> [ r |-> Mul(pose.r, Turn(k, q)), t |-> App(Turn(k, q), pose.t) ]
               [] OTHER -> [ pose EXCEPT !.r = Mul(@, Turn(k, q)) ]
  /\ mark' = [ j \in 1 .. 3 |-> TurnPointN(mark[j], centre, axis(k), q) ]
  /\ Do([ op |-> "rotate", k |-> k, q |-> q ])
Replace(r, t, how) ==
  LET to == [ r |-> r, t |-> t ] IN
  /\ pose' = IF Variant = "compose" /\ how = "transform" THEN [ r |-> Mul(pose.r, r), t |-> Add(pose.t, App(pose.r, t)) ]
             ELSE IF Variant = "setupkeeps" /\ how # "transform" THEN pose ELSE to
  /\ mark' = Place(to)
  /\ Do([ op |-> how, r |-> r, t |-> t ])
Other(op) == UNCHANGED << pose, mark >> /\ Do([ op |-> op ])

Init == pose = [ r |-> Id, t |-> << 0, 0, 0 >> ] /\ mark = Place(pose) /\ hist = << >>
Next == \/ \E k \in 1 .. 3, d \in { -1, 1 } : Translate(k, d)
        \/ \E k \in 1 .. 3, q \in 1 .. 3 : Rotate(k, q)
        \/ \E r \in Rots, how \in { "transform", "setupm", "setupf" } : Replace(r, IF how = "transform" THEN << 1, 0, -1 >> ELSE << 0, 1, 0 >>, how)
        \/ \E op \in { "resize", "queries" } : Other(op)
Spec == Init /\ [][Next]_vars

Agrees == mark = Place(pose)
Rigid == pose.r \in Rots
=============================================================================
