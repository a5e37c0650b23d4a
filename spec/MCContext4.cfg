SPECIFICATION Spec
CONSTANTS
  L = 4
  Emit = TRUE
INVARIANTS Reads ReadOnce Answers Onion1 Transparent EmitAll
