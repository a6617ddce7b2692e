SPECIFICATION Spec
CONSTANTS Per = 100
  Kids = 2
  Variant = "asis"
  Emit = FALSE
INVARIANTS Agrees Bounded Order Split Carried Bystander Planar Probes
