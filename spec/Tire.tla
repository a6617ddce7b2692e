-------------------------------- MODULE Tire --------------------------------
(***************************************************************************)
(* The tyre: profile law and the discretisation into ribs (property C01).  *)
(* A shape is << Rx, Mx, Ry, My, Ly >>.                                    *)
(***************************************************************************)
EXTENDS FxElem

InWidth(sh, y) == FxLe(FxAbs(y), sh[5])
(* u(y) = (|y| / Ry)^My ;  radius = Rx (1 - u)^(1/Mx)                       *)
ProfU(sh, y) == FxPow(FxDiv(FxAbs(y), sh[3]), sh[4])
Radius(sh, y) == FxMul(sh[1], FxPow(FxSub(Fx1, ProfU(sh, y)), FxDiv(Fx1, sh[2])))
(* r'(y) = - sign(y) Rx My/(Mx |y|) u (1 - u)^((1-Mx)/Mx)                    *)
Slope(sh, y) ==
  IF FxLe(FxAbs(y), FxRat(1, 1000000000)) THEN Fx0      \* odd function; see ProfClauses for |y| near 0
  ELSE LET u == ProfU(sh, y)
           a == FxMul(FxMul(sh[1], FxDiv(sh[4], FxMul(sh[2], FxAbs(y)))), u)
           d == FxMul(a, FxPow(FxSub(Fx1, u), FxDiv(FxSub(Fx1, sh[2]), sh[2])))
       IN  IF y[1] > 0 THEN FxNeg(d) ELSE d
(* At the edge of a profile that ends there (|y| = Ry, Mx > 1) the curve is vertical. *)
AtRim(sh, y) == FxLt(Fx1, sh[2]) /\ FxLe(FxAbs(FxSub(FxAbs(y), sh[3])), FxMul(sh[3], FxRat(1, 1000000)))
SlopeAngle(sh, y) == FxAtan2(Slope(sh, y), Fx1)

(* How far rounding a place y can move the radius near the middle, where the profile need not be smooth (My < 1). *)
MidSlack(sh, y) == IF FxLe(FxRat(1, 1000000000), FxAbs(y)) THEN Fx0 ELSE FxSub(sh[1], Radius(sh, << 1, 11529 >>))
(* The ribs of a tyre with n ribs: n slices of equal width that tile [-Ly, Ly] *)
RibWidth(sh, n) == FxDiv(FxTwice(sh[5]), FxInt(n))
RibY(sh, n, i) == FxAdd(FxNeg(sh[5]), FxMul(RibWidth(sh, n), FxRat(2 * i - 1, 2)))   \* i in 1..n
=============================================================================
