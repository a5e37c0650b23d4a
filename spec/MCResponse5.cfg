SPECIFICATION Spec
CONSTANTS
  L = 5
  Wide = FALSE
  Emit = FALSE
INVARIANTS StatusLast BodyLast Folds EmitAll
PROPERTY Accumulate
