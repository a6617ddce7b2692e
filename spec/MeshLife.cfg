SPECIFICATION Spec
VIEW View
CONSTANTS Meshes = {1, 2}
  MaxLen = 5
  Variant = "asis"
  Emit = FALSE
  EmitFrom = 1
INVARIANTS SizeRight QueryRight InStep
