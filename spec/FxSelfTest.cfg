CONSTANT Full = FALSE
INIT Init
NEXT Next
INVARIANTS AddOk SubOk MulOk DivOk SqrtOk CmpOk DotOk VecOk MatOk CloseOk BoxOk AtanOk RootOk LnOk ExpOk ExpLnOk PowOk TrigOk Atan2Ok
