------------------------------- MODULE FxElem -------------------------------
(***************************************************************************)
(* Elementary functions of fixed-point reals, by argument reduction and    *)
(* power series (truncated when the terms fall below one unit, 2^-60).     *)
(***************************************************************************)
EXTENDS Fx

(* ln x, x > 0:  x = m * 2^k with m in [3/4, 3/2), ln m = 2 atanh((m-1)/(m+1)) *)
FxLn2 == << 1, 30618, 31289, 1533, 22713 >>     \* 0.693147180559945309...
LOCAL AtanhSum(z) ==
  LET z2 == FxSq(z)
      RECURSIVE S(_, _)
      S(p, k) == IF p[1] = 0 THEN Fx0
                 ELSE FxAdd(FxDiv(p, FxInt(2 * k + 1)), S(FxMul(p, z2), k + 1))
  IN  S(z, 0)
RECURSIVE LnRed(_, _)
LnRed(x, k) ==
  IF FxGe(x, FxRat(3, 2)) THEN LnRed(FxHalve(x), k + 1)
  ELSE IF FxLt(x, FxRat(3, 4)) THEN LnRed(FxTwice(x), k - 1)
  ELSE FxAdd(FxTwice(AtanhSum(FxDiv(FxSub(x, Fx1), FxAdd(x, Fx1)))), FxMul(FxInt(k), FxLn2))
FxLn(x) == LnRed(x, 0)

(* exp x: x / 2^8 in a Taylor series, then squared eight times.             *)
LOCAL ExpSeries(x) ==
  LET RECURSIVE S(_, _)
      S(p, k) == IF p[1] = 0 THEN Fx0 ELSE FxAdd(p, S(FxDiv(FxMul(p, x), FxInt(k + 1)), k + 1))
  IN  S(Fx1, 0)
RECURSIVE SqN(_, _)
SqN(x, n) == IF n = 0 THEN x ELSE SqN(FxSq(x), n - 1)
FxExp(x) == SqN(ExpSeries(FxDiv(x, FxInt(256))), 8)

(* x^p for x >= 0                                                           *)
FxPow(x, p) == IF p[1] = 0 THEN Fx1 ELSE IF x[1] = 0 THEN Fx0 ELSE IF p = Fx1 THEN x
               ELSE IF x = Fx1 THEN Fx1 ELSE FxExp(FxMul(p, FxLn(x)))

(* sin and cos of any angle: the angle divided by 2^4, series, then doubled. *)
LOCAL SinSeries(x) ==
  LET x2 == FxSq(x)
      RECURSIVE S(_, _)
      S(p, k) == IF p[1] = 0 THEN Fx0
                 ELSE FxAdd(p, S(FxNeg(FxDiv(FxMul(p, x2), FxInt((k + 1) * (k + 2)))), k + 2))
  IN  S(x, 1)
LOCAL CosSeries(x) ==
  LET x2 == FxSq(x)
      RECURSIVE S(_, _)
      S(p, k) == IF p[1] = 0 THEN Fx0
                 ELSE FxAdd(p, S(FxNeg(FxDiv(FxMul(p, x2), FxInt((k + 1) * (k + 2)))), k + 2))
  IN  S(Fx1, 0)
RECURSIVE Dbl(_, _)
Dbl(cs, n) == IF n = 0 THEN cs
              ELSE Dbl(<< FxSub(FxSq(cs[1]), FxSq(cs[2])), FxTwice(FxMul(cs[1], cs[2])) >>, n - 1)
FxCosSin(x) == LET y == FxDiv(x, FxInt(16)) IN Dbl(<< CosSeries(y), SinSeries(y) >>, 4)

(* Rotation matrices (tuples of rows).                                      *)
M3(a, b, c, d, e, f, g, h, i) == << << a, b, c >>, << d, e, f >>, << g, h, i >> >>
MId3 == M3(Fx1, Fx0, Fx0, Fx0, Fx1, Fx0, Fx0, Fx0, Fx1)
RotX(cs) == M3(Fx1, Fx0, Fx0, Fx0, cs[1], FxNeg(cs[2]), Fx0, cs[2], cs[1])
RotY(cs) == M3(cs[1], Fx0, cs[2], Fx0, Fx1, Fx0, FxNeg(cs[2]), Fx0, cs[1])
RotZ(cs) == M3(cs[1], FxNeg(cs[2]), Fx0, cs[2], cs[1], Fx0, Fx0, Fx0, Fx1)
MT3(m) == << MCol(m, 1), MCol(m, 2), MCol(m, 3) >>
MMul3(a, b) == << MTApply(b, a[1]), MTApply(b, a[2]), MTApply(b, a[3]) >>   \* rows of a times b
MClose(a, b, tol) == VClose(a[1], b[1], tol) /\ VClose(a[2], b[2], tol) /\ VClose(a[3], b[3], tol)
(* Rodrigues: rotation by the angle with (cos, sin) = cs about the unit axis u *)
RotAxis(cs, u) ==
  LET c == cs[1]  s == cs[2]  k == FxSub(Fx1, c)
      E(i, j) == FxMul(k, FxMul(u[i], u[j]))
      su == VScale(s, u)
  IN  M3(FxAdd(c, E(1, 1)), FxSub(E(1, 2), su[3]), FxAdd(E(1, 3), su[2]),
         FxAdd(E(2, 1), su[3]), FxAdd(c, E(2, 2)), FxSub(E(2, 3), su[1]),
         FxSub(E(3, 1), su[2]), FxAdd(E(3, 2), su[1]), FxAdd(c, E(3, 3)))
(* The rotation z-x-y with the given angles, as in the documented ZXY sequence. *)
RotZXY(g) == MMul3(RotZ(FxCosSin(g[1])), MMul3(RotX(FxCosSin(g[2])), RotY(FxCosSin(g[3]))))
IsMat(m) == IsVec(m[1]) /\ IsVec(m[2]) /\ IsVec(m[3])
=============================================================================
