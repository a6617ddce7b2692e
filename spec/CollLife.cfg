SPECIFICATION Spec
VIEW View
CONSTANTS MaxLen = 6
  Variant = "asis"
  Emit = FALSE
  EmitFrom = 1
INVARIANTS SearchRight MembersRight
