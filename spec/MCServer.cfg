SPECIFICATION Spec
CONSTANTS
  Conns = {"a", "b"}
  Eager = FALSE
  N = 2
  Kinds = {"ok", "two", "err", "panic", "fast", "early"}
  Emit = FALSE
INVARIANTS Isolated EndsAlike Onion InOrder OwnAnswer NothingLost AliveUnlessPanic
PROPERTY SameState
