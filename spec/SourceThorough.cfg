SPECIFICATION EagerSpec
CONSTANT Docs <- Thorough
INVARIANTS Faithful AllOfIt Emit
CHECK_DEADLOCK FALSE
