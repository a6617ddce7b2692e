------------------------------ MODULE FxSelfTest ------------------------------
(* The accelerated operators of Fx agree with their TLA+ definitions.        *)
EXTENDS FxElem, TLC, FiniteSets
CONSTANT Full                     \* all pairs of samples, or a few
Samples == { Fx0, Fx1, Fx2, FxNeg(Fx1), << 1, 1 >>, << -1, 1 >>, << 1, 32767 >>,
             << 1, 0, 1 >>, << -1, 32767, 32767, 32767, 32767 >>, FxPi, FxNeg(FxPi),
             FxRat(1, 3), FxRat(-7, 9), FxRat(12345, 17), FxInt(1000000), FxRat(1, 1000000),
             << 1, 5, 0, 0, 0, 0, 0, 9 >>, << -1, 123, 4567, 8910, 1112, 1314, 15 >> }
VARIABLES a, b, c
Init == a \in Samples /\ b \in (IF Full THEN Samples ELSE { FxRat(-7, 9), << 1, 5, 0, 0, 0, 0, 0, 9 >>, FxRat(1, 3) }) /\ c \in { FxRat(3, 7), FxNeg(FxPi) }
Next == UNCHANGED << a, b, c >>
AddOk  == FxAdd(a, b) = PureAdd(a, b)
SubOk  == FxSub(a, b) = PureSub(a, b)
MulOk  == FxMul(a, b) = PureMul(a, b)
DivOk  == b[1] # 0 => FxDiv(a, b) = PureDiv(a, b)
SqrtOk == FxSqrt(a) = PureSqrt(a)
CmpOk  == FxCmp(a, b) = PureCmp(a, b)
DotOk  == FxDot3(<< a, b, c >>, << c, a, b >>) = PureDot3(<< a, b, c >>, << c, a, b >>)
U == << a, b, c >>
W == << c, a, b >>
VecOk  == /\ VAdd(U, W) = PureVAdd(U, W) /\ VSub(U, W) = PureVSub(U, W)
          /\ VScale(a, W) = PureVScale(a, W) /\ VCross(U, W) = PureVCross(U, W)
MatOk  == LET m == << U, W, << b, c, a >> >>
          IN  MApply(m, U) = PureMApply(m, U) /\ MTApply(m, U) = PureMTApply(m, U)
CloseOk == Close(a, b, c) = PureClose(a, b, c) /\ ~Close(<< >>, a, c)
BoxOk == /\ FxTriMeets(<< U, W, << b, c, a >> >>, W, << a, a, b >>) = PureTriMeets(<< U, W, << b, c, a >> >>, W, << a, a, b >>)
         /\ FxBoxMeets(<< U, W >>, << W, << a, c, b >> >>) = PureBoxMeets(<< U, W >>, << W, << a, c, b >> >>)
AtanOk == Close(FxMul(FxInt(4), FxAtan01(Fx1)), FxPi, << 1, 256 >>)
RootOk == a[1] >= 0 /\ FxLt(a, FxInt(2000000)) =>
            LET r == FxSqrt(a) IN FxLe(FxSq(r), a) /\ FxLe(a, FxSq(FxAdd(r, << 1, 1, 1 >>)))
(* The elementary functions satisfy their functional equations.               *)
Small == FxLe(FxAbs(a), FxInt(40)) /\ FxLe(FxAbs(b), FxInt(40))
Eps(x) == FxMul(<< 1, 0, 32 >>, FxAdd(Fx1, FxAbs(x)))          \* about 3e-11 relative
LnOk == (a[1] > 0 /\ b[1] > 0 /\ FxLe(FxRat(1, 2000), a) /\ FxLe(FxRat(1, 2000), b)) => Close(FxLn(FxMul(a, b)), FxAdd(FxLn(a), FxLn(b)), << 1, 0, 0, 1 >>)
ExpOk == (FxLe(FxAbs(a), FxInt(4)) /\ FxLe(FxAbs(b), FxInt(4))) =>
           LET p == FxMul(FxExp(a), FxExp(b)) IN Close(FxExp(FxAdd(a, b)), p, Eps(p))
ExpLnOk == (a[1] > 0 /\ b[1] > 0 /\ FxLe(FxRat(1, 2000), a) /\ FxLe(FxRat(1, 2000), b)) => Close(FxExp(FxLn(a)), a, Eps(a))
PowOk == (a[1] > 0 /\ FxLe(FxRat(1, 1000), a) /\ FxLe(a, FxInt(50))) =>
           /\ Close(FxPow(a, FxRat(1, 2)), FxSqrt(a), Eps(a)) /\ Close(FxPow(a, FxInt(3)), FxMul(a, FxSq(a)), Eps(FxMul(a, FxSq(a))))
TrigOk == Small => LET p == FxCosSin(a)  q == FxCosSin(b)  r == FxCosSin(FxAdd(a, b))
                   IN  /\ Close(FxAdd(FxSq(p[1]), FxSq(p[2])), Fx1, Eps(Fx1))
                       /\ Close(r[1], FxSub(FxMul(p[1], q[1]), FxMul(p[2], q[2])), Eps(Fx1))
                       /\ Close(r[2], FxAdd(FxMul(p[2], q[1]), FxMul(p[1], q[2])), Eps(Fx1))
Atan2Ok == (FxLe(FxAbs(a), FxInt(3))) =>
             LET p == FxCosSin(a) IN Close(FxAtan2(p[2], p[1]), a, Eps(Fx1))
===============================================================================
