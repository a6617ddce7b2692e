SPECIFICATION Spec
VIEW GenView
CONSTANTS MaxLen = 5
  Variant = "asis"
  Emit = TRUE
  EmitFrom = 1
INVARIANTS Answered Usable
