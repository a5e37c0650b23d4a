SPECIFICATION Spec
CONSTANTS
  L = 3
  Emit = TRUE
INVARIANTS Reads ReadOnce Answers Onion1 Transparent EmitAll
