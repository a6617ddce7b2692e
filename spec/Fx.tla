--------------------------------- MODULE Fx ---------------------------------
(***************************************************************************)
(* Fixed-point reals for the geometric part of the specification.          *)
(*                                                                         *)
(* TLC's integers have 32 bits, so a number is a sequence                  *)
(*        << sign, l1, l2, ..., ln >>      sign \in {-1, 0, 1}             *)
(* with 15-bit limbs, least significant first, no leading zero limb, and   *)
(* denotes  sign * (l1 + l2*2^15 + l3*2^30 + ...) / 2^60.                  *)
(* Zero is <<0>>.  The empty sequence << >> is used in traces for a value  *)
(* that is not a finite number (NaN, infinity).                            *)
(*                                                                         *)
(* Every operator below is defined in TLA+.  java/FxOverrides.java         *)
(* accelerates the ones TLC spends its time in; FxSelfTest.tla checks      *)
(* that both agree.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Base == 32768
ScaleLimbs == 4                 \* 4 * 15 = 60 fractional bits

------------------------------------------------------------------------------
(* Magnitudes: sequences of limbs without leading (i.e. last) zeros.        *)

RECURSIVE MTrim(_)
MTrim(m) == IF m = << >> \/ m[Len(m)] # 0 THEN m
            ELSE MTrim(SubSeq(m, 1, Len(m) - 1))

LOCAL Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MAddC(_, _, _, _)
MAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN << >> ELSE << c >>)
  ELSE LET s == Limb(a, i) + Limb(b, i) + c
       IN  << s % Base >> \o MAddC(a, b, i + 1, s \div Base)
MAdd(a, b) == MAddC(a, b, 1, 0)

RECURSIVE MSubC(_, _, _, _)      \* a >= b
MSubC(a, b, i, c) ==
  IF i > Len(a) THEN << >>
  ELSE LET s == Limb(a, i) - Limb(b, i) - c
       IN  IF s < 0 THEN << s + Base >> \o MSubC(a, b, i + 1, 1)
                    ELSE << s >> \o MSubC(a, b, i + 1, 0)
MSub(a, b) == MTrim(MSubC(a, b, 1, 0))

RECURSIVE MCmpAt(_, _, _)
MCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1
                   ELSE MCmpAt(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE MCmpAt(a, b, Len(a))

RECURSIVE MMul1C(_, _, _, _)
MMul1C(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE << c >>)
  ELSE LET p == a[i] * d + c
       IN  << p % Base >> \o MMul1C(a, d, i + 1, p \div Base)
MMul1(a, d) == IF d = 0 THEN << >> ELSE MMul1C(a, d, 1, 0)

RECURSIVE MMulAt(_, _, _)
MMulAt(a, b, i) == IF i > Len(b) THEN << >>
                   ELSE MAdd(MMul1(a, b[i]),
                             LET r == MMulAt(a, b, i + 1)
                             IN  IF r = << >> THEN << >> ELSE << 0 >> \o r)
MMul(a, b) == MMulAt(a, b, 1)

MShl(m, k) == IF m = << >> THEN << >> ELSE [i \in 1 .. k |-> 0] \o m
MShr(m, k) == IF Len(m) <= k THEN << >> ELSE SubSeq(m, k + 1, Len(m))

(* Largest digit q with q * b <= r, by bisection on 0 .. Base-1.            *)
RECURSIVE MDigit(_, _, _, _)
MDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF MCmp(MMul1(b, mid), r) <= 0 THEN MDigit(r, b, mid, hi)
                                          ELSE MDigit(r, b, lo, mid - 1)

(* Long division: quotient of a by b # << >>, most significant limb first.  *)
RECURSIVE MDivAt(_, _, _, _)
MDivAt(a, b, i, r) ==
  IF i = 0 THEN << >>
  ELSE LET r1 == IF r = << >> /\ a[i] = 0 THEN << >> ELSE << a[i] >> \o r
           q  == MDigit(r1, b, 0, Base - 1)
       IN  MDivAt(a, b, i - 1, MSub(r1, MMul1(b, q))) \o << q >>
MDiv(a, b) == MTrim(MDivAt(a, b, Len(a), << >>))

(* Integer square root by Newton iteration from above.                      *)
RECURSIVE MNewton(_, _)
MNewton(a, x) == LET y == MDiv(MAdd(x, MDiv(a, x)), << 2 >>)
                 IN  IF MCmp(y, x) >= 0 THEN x ELSE MNewton(a, y)
MSqrt(a) == IF a = << >> THEN << >>
            ELSE MNewton(a, [i \in 1 .. (Len(a) \div 2) |-> 0] \o << 0, 1 >>)

------------------------------------------------------------------------------
LOCAL Mag(a)   == SubSeq(a, 2, Len(a))
LOCAL Mk(s, m) == IF m = << >> THEN << 0 >> ELSE << s >> \o m

Fx0 == << 0 >>

PureAdd(a, b) ==
  IF a[1] = 0 THEN b
  ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(Mag(a), Mag(b)))
  ELSE LET c == MCmp(Mag(a), Mag(b))
       IN  IF c = 0 THEN Fx0
           ELSE IF c > 0 THEN Mk(a[1], MSub(Mag(a), Mag(b)))
           ELSE Mk(b[1], MSub(Mag(b), Mag(a)))
FxNeg(a) == IF a[1] = 0 THEN a ELSE << -a[1] >> \o Mag(a)
PureSub(a, b) == PureAdd(a, FxNeg(b))
PureMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Fx0
                 ELSE Mk(a[1] * b[1], MShr(MMul(Mag(a), Mag(b)), ScaleLimbs))
PureDiv(a, b) == IF a[1] = 0 THEN Fx0
                 ELSE Mk(a[1] * b[1], MDiv(MShl(Mag(a), ScaleLimbs), Mag(b)))
PureSqrt(a)   == IF a[1] <= 0 THEN Fx0
                 ELSE Mk(1, MSqrt(MShl(Mag(a), ScaleLimbs)))
PureCmp(a, b) == IF a[1] < b[1] THEN -1
                 ELSE IF a[1] > b[1] THEN 1
                 ELSE IF a[1] = 0 THEN 0
                 ELSE a[1] * MCmp(Mag(a), Mag(b))

(* The accelerated names.                                                   *)
FxAdd(a, b) == PureAdd(a, b)
FxSub(a, b) == PureSub(a, b)
FxMul(a, b) == PureMul(a, b)
FxDiv(a, b) == PureDiv(a, b)
FxSqrt(a)   == PureSqrt(a)
FxCmp(a, b) == PureCmp(a, b)
PureDot3(u, v) == PureAdd(PureAdd(PureMul(u[1], v[1]), PureMul(u[2], v[2])), PureMul(u[3], v[3]))
FxDot3(u, v) == PureDot3(u, v)

------------------------------------------------------------------------------
IsFx(a)    == a # << >>                     \* finite number (trace values)
FxLt(a, b) == FxCmp(a, b) < 0
FxLe(a, b) == FxCmp(a, b) <= 0
FxGt(a, b) == FxCmp(a, b) > 0
FxGe(a, b) == FxCmp(a, b) >= 0
FxAbs(a)   == IF a[1] < 0 THEN FxNeg(a) ELSE a
FxMin(a, b) == IF FxLe(a, b) THEN a ELSE b
FxMax(a, b) == IF FxLe(a, b) THEN b ELSE a
FxPos(a)   == a[1] > 0
FxNegative(a) == a[1] < 0
FxZero(a)  == a[1] = 0

RECURSIVE IntLimbs(_)
IntLimbs(n) == IF n = 0 THEN << >> ELSE << n % Base >> \o IntLimbs(n \div Base)
FxInt(n) == IF n = 0 THEN Fx0
            ELSE Mk(IF n < 0 THEN -1 ELSE 1,
                    MShl(IntLimbs(IF n < 0 THEN -n ELSE n), ScaleLimbs))
FxRat(n, d) == FxDiv(FxInt(n), FxInt(d))
Fx1 == FxInt(1)
Fx2 == FxInt(2)
FxHalf == FxRat(1, 2)
FxSq(a) == FxMul(a, a)
FxTwice(a) == FxAdd(a, a)
FxHalve(a) == FxDiv(a, Fx2)

(* pi and pi/2, to 60 fractional bits (3.14159265358979323846...).          *)
FxPi == << 1, 12429, 4276, 23202, 4639, 3 >>
FxHalfPi == FxHalve(FxPi)

(* arctangent.  Argument halving atan(x) = 2 atan(x / (1 + sqrt(1 + x^2)))  *)
(* three times, then the Taylor series.                                     *)
RECURSIVE AtanSeries(_, _, _, _)
AtanSeries(x2, p, k, sg) ==      \* sum of sg * p / (2k+1) ...
  IF p[1] = 0 THEN Fx0
  ELSE FxAdd(FxDiv(IF sg > 0 THEN p ELSE FxNeg(p), FxInt(2 * k + 1)),
             AtanSeries(x2, FxMul(p, x2), k + 1, -sg))
LOCAL AtanHalf(x) == FxDiv(x, FxAdd(Fx1, FxSqrt(FxAdd(Fx1, FxSq(x)))))
LOCAL AtanSmall(x) == AtanSeries(FxSq(x), x, 0, 1)
FxAtan01(x) ==                   \* 0 <= x <= 1
  LET y == AtanHalf(AtanHalf(AtanHalf(x)))
      s == AtanSmall(y)
  IN  FxMul(FxInt(8), s)
(* Angle in [0, pi] of the vector (c, s) with s >= 0, (c, s) # (0, 0).      *)
FxAngle(c, s) ==
  LET ac == FxAbs(c)
      a  == IF FxLe(s, ac) THEN FxAtan01(FxDiv(s, ac))
            ELSE FxSub(FxHalfPi, FxAtan01(FxDiv(ac, s)))
  IN  IF FxNegative(c) THEN FxSub(FxPi, a) ELSE a
(* atan2(y, x) in (-pi, pi]                                                  *)
FxAtan2(y, x) == IF FxNegative(y) THEN FxNeg(FxAngle(x, FxNeg(y))) ELSE FxAngle(x, y)

------------------------------------------------------------------------------
(* Vectors and 3x3 matrices (tuples of rows).                               *)
PureVAdd(u, v) == << FxAdd(u[1], v[1]), FxAdd(u[2], v[2]), FxAdd(u[3], v[3]) >>
PureVSub(u, v) == << FxSub(u[1], v[1]), FxSub(u[2], v[2]), FxSub(u[3], v[3]) >>
VNeg(u)    == << FxNeg(u[1]), FxNeg(u[2]), FxNeg(u[3]) >>
PureVScale(k, u) == << FxMul(k, u[1]), FxMul(k, u[2]), FxMul(k, u[3]) >>
VDivS(u, k)  == << FxDiv(u[1], k), FxDiv(u[2], k), FxDiv(u[3], k) >>
VDot(u, v) == FxDot3(u, v)
PureVCross(u, v) == << FxSub(FxMul(u[2], v[3]), FxMul(u[3], v[2])),
                       FxSub(FxMul(u[3], v[1]), FxMul(u[1], v[3])),
                       FxSub(FxMul(u[1], v[2]), FxMul(u[2], v[1])) >>
VAdd(u, v)   == PureVAdd(u, v)              \* accelerated
VSub(u, v)   == PureVSub(u, v)
VScale(k, u) == PureVScale(k, u)
VCross(u, v) == PureVCross(u, v)
VNorm2(u)  == FxDot3(u, u)
(* Norm and unit vector, scaled by the largest component so that small      *)
(* vectors keep their precision; the unit vector of the null vector is null. *)
VMaxAbs(u) == FxMax(FxAbs(u[1]), FxMax(FxAbs(u[2]), FxAbs(u[3])))
VNorm(u)   == LET m == VMaxAbs(u) IN
              IF m = Fx0 THEN Fx0 ELSE LET s == VDivS(u, m) IN FxMul(m, FxSqrt(FxDot3(s, s)))
VUnit(u)   == LET m == VMaxAbs(u) IN
              IF m = Fx0 THEN u ELSE LET s == VDivS(u, m) IN VDivS(s, FxSqrt(FxDot3(s, s)))
V0 == << Fx0, Fx0, Fx0 >>
VMid(u, v) == VDivS(VAdd(u, v), Fx2)
PureMApply(m, v) == << VDot(m[1], v), VDot(m[2], v), VDot(m[3], v) >>
PureMTApply(m, v) == << VDot(<< m[1][1], m[2][1], m[3][1] >>, v),
                    VDot(<< m[1][2], m[2][2], m[3][2] >>, v),
                    VDot(<< m[1][3], m[2][3], m[3][3] >>, v) >>
MApply(m, v)  == PureMApply(m, v)          \* accelerated
MTApply(m, v) == PureMTApply(m, v)
MCol(m, k) == << m[1][k], m[2][k], m[3][k] >>
IsVec(v)   == IsFx(v[1]) /\ IsFx(v[2]) /\ IsFx(v[3])

(* Closeness: |a - b| <= tol                                                *)
PureClose(a, b, tol) == IsFx(a) /\ IsFx(b) /\ FxLe(FxAbs(FxSub(a, b)), tol)
Close(a, b, tol) == PureClose(a, b, tol)    \* accelerated
VClose(u, v, tol) == Close(u[1], v[1], tol) /\ Close(u[2], v[2], tol) /\ Close(u[3], v[3], tol)

(* The box of the triangle v touches or overlaps the box lo..hi.             *)
PureTriMeets(v, lo, hi) ==
  \A k \in 1 .. 3 : /\ FxLe(FxMin(v[1][k], FxMin(v[2][k], v[3][k])), hi[k])
                     /\ FxGe(FxMax(v[1][k], FxMax(v[2][k], v[3][k])), lo[k])
FxTriMeets(v, lo, hi) == PureTriMeets(v, lo, hi)      \* accelerated
(* Two boxes << lo, hi >> touch or overlap.                                   *)
PureBoxMeets(a, b) == \A k \in 1 .. 3 : FxLe(a[1][k], b[2][k]) /\ FxLe(b[1][k], a[2][k])
FxBoxMeets(a, b) == PureBoxMeets(a, b)                \* accelerated
=============================================================================
