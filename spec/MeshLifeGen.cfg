SPECIFICATION Spec

CONSTANTS Meshes = {1, 2}
  MaxLen = 3
  Variant = "asis"
  Emit = TRUE
  EmitFrom = 1

