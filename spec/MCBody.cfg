SPECIFICATION Spec
INVARIANTS DivisionFree ReadOnce Emit
