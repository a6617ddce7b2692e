SPECIFICATION Spec
VIEW View
CONSTANTS Reach = 1
  MaxLen = 6
  Variant = "asis"
  Emit = FALSE
  EmitFrom = 1
INVARIANTS Agrees Rigid
