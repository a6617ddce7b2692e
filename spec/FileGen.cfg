SPECIFICATION Spec
CONSTANTS Kind = "rdf"
  MaxLen = 3
  Variant = "asis"
  Emit = FALSE
INVARIANTS Accepts Exact
