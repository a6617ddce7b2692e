SPECIFICATION Spec
VIEW GenView
CONSTANTS Sizes = {1, 2, 5}
  MaxLen = 6
  Variant = "asis"
  Emit = TRUE
  EmitFrom = 1
