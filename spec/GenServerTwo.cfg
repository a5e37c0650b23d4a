SPECIFICATION Spec
CONSTANTS
  Conns = {"a", "b"}
  Eager = TRUE
  N = 2
  Kinds = {"ok", "two", "err", "panic", "fast", "early"}
  Emit = TRUE
INVARIANTS EmitAll
