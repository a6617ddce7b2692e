SPECIFICATION Spec
VIEW View
CONSTANTS Counts = {0, 1, 2, 3, 5, 8}
  Which = {1, 2, 3, 4, 5, 6, 7, 8}
  MaxLen = 4
  Variant = "asis"
  Emit = FALSE
  EmitFrom = 2
INVARIANTS Count Tile Inside Mirror Law
