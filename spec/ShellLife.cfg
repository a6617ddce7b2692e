SPECIFICATION Spec
VIEW View
CONSTANTS Sizes = {1, 2, 5}
  MaxLen = 6
  Variant = "asis"
  Emit = FALSE
  EmitFrom = 1
INVARIANTS OneEntryPerRib Determined FlagRight BoxRight
