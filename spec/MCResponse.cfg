SPECIFICATION Spec
CONSTANTS
  L = 3
  Wide = TRUE
  Emit = TRUE
INVARIANTS StatusLast BodyLast Folds EmitAll
PROPERTY Accumulate
