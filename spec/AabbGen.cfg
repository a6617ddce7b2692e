SPECIFICATION Spec
CONSTANTS Top = 2
  MaxA = 2
  MaxB = 2
  Shapes = "half"
  Variant = "asis"
  Emit = TRUE
INVARIANTS Done
CONSTRAINT EmitAll
