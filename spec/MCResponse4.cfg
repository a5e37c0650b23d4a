SPECIFICATION Spec
CONSTANTS
  L = 4
  Wide = FALSE
  Emit = TRUE
INVARIANTS StatusLast BodyLast Folds EmitAll
PROPERTY Accumulate
