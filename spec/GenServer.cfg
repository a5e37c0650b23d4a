SPECIFICATION Spec
CONSTANTS
  Conns = {"a", "b", "c"}
  Eager = TRUE
  N = 3
  Kinds = {"ok", "panic"}
  Emit = TRUE
INVARIANTS EmitAll
