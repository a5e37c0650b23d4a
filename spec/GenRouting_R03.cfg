SPECIFICATION Spec
INVARIANTS Emit TabOK
CHECK_DEADLOCK FALSE
