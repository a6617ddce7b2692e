INIT Init
NEXT Next
CONSTANT Props <- PropsEnv
POSTCONDITION Done
