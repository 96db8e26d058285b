SPECIFICATION Spec
INVARIANTS Inverse Emit
CHECK_DEADLOCK FALSE
