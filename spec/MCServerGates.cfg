SPECIFICATION Spec
CONSTANTS
  Conns = {"a", "b", "c"}
  Eager = TRUE
  N = 3
  Kinds = {"ok", "two", "err", "panic", "fast"}
  Emit = FALSE
INVARIANTS Isolated EndsAlike Onion InOrder OwnAnswer NothingLost AliveUnlessPanic
PROPERTY SameState
