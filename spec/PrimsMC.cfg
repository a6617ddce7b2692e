SPECIFICATION Spec
CONSTANTS Per = 40
  Variant = "asis"
  Emit = FALSE
INVARIANTS ExactOk SymmetricOk ListingOk MovedOk MonotoneOk RelatedOk
