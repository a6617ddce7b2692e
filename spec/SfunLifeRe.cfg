SPECIFICATION Spec
VIEW ReView
CONSTANTS MaxLen = 6
  Variant = "asis"
  Emit = TRUE
  EmitFrom = 1
  Flats <- Only_f1
  Tyres <- Only_small
  Meth <- Only_g
  Sel <- Only_mesh
  Poses <- Only_ab
  Contents <- Good_bad
INVARIANTS Answered Usable
