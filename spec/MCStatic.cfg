SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANTS KeepsInside IsExact EmitAll
