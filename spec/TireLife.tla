------------------------------ MODULE TireLife ------------------------------
(***************************************************************************)
(* The discretisation of a tyre (C01) under construction, resizes (refused  *)
(* ones included) and profile queries.  `ribs` is what the implementation   *)
(* keeps, recomputed from the shape and the count; `n` is the count the     *)
(* user last asked for.  The invariants do not mention the formula for the  *)
(* ribs: they say that the ribs tile the width and that the profile is the  *)
(* even curve, with the slope as its derivative, that Tire describes.       *)
(* Variants other than "asis" must be refuted.                              *)
(***************************************************************************)
EXTENDS Tire, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Counts, Which, MaxLen, Variant, Emit, EmitFrom

(* shapes in hundredths: Rx, Mx, Ry, My, Ly                                  *)
Table == << << 30, 200, 20, 200, 10 >>, << 30, 100, 12, 100, 10 >>, << 25, 400, 25, 900, 24 >>, << 50, 150, 100, 300, 25 >>,
            << 31, 800, 13, 60, 12 >>, << 30, 60, 30, 400, 15 >>, << 40, 200, 50, 100, 50 >>, << 20, 1000, 9, 1000, 8 >> >>
Sh(k) == [ j \in 1 .. 5 |-> FxRat(Table[k][j], 100) ]
Tiny == << 1, 4096 >>                                   \* 2^-48
Near(a, b) == Close(a, b, Tiny)
Grid == -6 .. 6                                         \* fifths of the half width; 6 is outside
At(k, j) == FxMul(Sh(k)[5], FxRat(j, 5))

VARIABLES sh, n, ribs, hist
vars == << sh, n, ribs, hist >>
View == << sh, n, ribs >>
Do(op) == /\ Len(hist) < MaxLen /\ hist' = Append(hist, op)
          /\ ((Emit /\ Len(hist') >= EmitFrom) => CSVWrite("%1$s", << ToJson(hist') >>, IOEnv.GEN))

Wid(k, c) == RibWidth(Sh(k), c)
Pos(k, c, i) == CASE Variant = "leftedge" -> FxAdd(FxNeg(Sh(k)[5]), FxMul(Wid(k, c), FxInt(i - 1)))
                  [] Variant = "ends" /\ c > 1 -> FxAdd(FxNeg(Sh(k)[5]), FxMul(FxTwice(Sh(k)[5]), FxRat(i - 1, c - 1)))
                  [] OTHER -> RibY(Sh(k), c, i)
Cut(k, c) == [ i \in 1 .. c |-> [ y |-> Pos(k, c, i), w |-> Wid(k, c) ] ]
Rad(k, y) == IF Variant = "signed" /\ y[1] < 0 THEN FxMul(Sh(k)[1], FxRat(99, 100)) ELSE Radius(Sh(k), y)
Slo(k, y) == CASE Variant = "evenslope" -> FxNeg(FxAbs(Slope(Sh(k), y)))
               [] Variant = "exponent" -> FxMul(Slope(Sh(k), y), FxSub(Fx1, ProfU(Sh(k), y)))
               [] OTHER -> Slope(Sh(k), y)

Init == /\ sh \in Which /\ n \in Counts \ { 0 } /\ ribs = Cut(sh, n)
        /\ hist = << [ op |-> "new", shape |-> [ j \in 1 .. 5 |-> Table[sh][j] ], n |-> n ] >>
Resize(c) ==
  /\ n' = IF c = 0 THEN n ELSE c
  /\ ribs' = CASE c = 0 -> IF Variant = "zero" THEN << >> ELSE ribs
               [] Variant = "keepwidth" -> [ i \in 1 .. c |-> [ y |-> Pos(sh, c, i), w |-> ribs[1].w ] ]
               [] Variant = "onlynew" -> [ i \in 1 .. c |-> IF i <= Len(ribs) THEN ribs[i] ELSE Cut(sh, c)[i] ]
               [] OTHER -> Cut(sh, c)
  /\ UNCHANGED sh /\ Do([ op |-> "resize", n |-> c ])
Query(j) == UNCHANGED << sh, n, ribs >> /\ Do([ op |-> "prof", j |-> j ])
Next == (\E c \in Counts : Resize(c)) \/ (\E j \in { -6, -5, -2, 0, 3 } : Query(j))
Spec == Init /\ [][Next]_vars

Count == Len(ribs) = n
Tile == LET R == ribs  ly == Sh(sh)[5]
            lo(i) == FxSub(R[i].y, FxHalve(R[i].w))  hi(i) == FxAdd(R[i].y, FxHalve(R[i].w))
        IN  /\ Near(lo(1), FxNeg(ly)) /\ Near(hi(Len(R)), ly)
            /\ \A i \in 1 .. Len(R) - 1 : Near(hi(i), lo(i + 1)) /\ R[i].w = R[i + 1].w
Inside == \A i \in 1 .. Len(ribs) : InWidth(Sh(sh), ribs[i].y)
Mirror == \A i \in 1 .. Len(ribs) :
             LET a == ribs[i].y  b == ribs[Len(ribs) + 1 - i].y
             IN  Near(Rad(sh, a), Rad(sh, b)) /\ Close(Slo(sh, a), FxNeg(Slo(sh, b)), FxRat(1, 1000000000))
(* The laws of the profile itself, once per shape.                            *)
Law == Len(hist) = 1 =>
  /\ Rad(sh, Fx0) = Sh(sh)[1] /\ Slo(sh, Fx0) = Fx0
  /\ \A j \in Grid : LET y == At(sh, j) IN InWidth(Sh(sh), y) <=> j \in -5 .. 5
  /\ \A j \in 0 .. 4 : FxLe(Rad(sh, At(sh, j + 1)), Rad(sh, At(sh, j)))
  /\ \A j \in -4 .. 4 \ { 0 } :
        LET y == At(sh, j)  h == FxRat(1, 20000)
            d == FxDiv(FxSub(Rad(sh, FxAdd(y, h)), Rad(sh, FxSub(y, h))), FxTwice(h))
        IN  Close(d, Slo(sh, y), FxMul(FxRat(1, 1000), FxAdd(Fx1, FxAbs(d))))
=============================================================================
