SPECIFICATION Spec
CONSTANTS Top = 2
  MaxA = 3
  MaxB = 2
  Shapes = "any"
  Variant = "asis"
  Emit = FALSE
INVARIANTS Sound Once Kept Apart2 Fresh Done
CONSTRAINT EmitAll
