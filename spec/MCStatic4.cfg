SPECIFICATION Spec
CONSTANTS
  N = 4
INVARIANTS KeepsInside IsExact EmitAll
