SPECIFICATION EagerSpec
CONSTANT Docs <- Quick
INVARIANTS Faithful AllOfIt Emit
CHECK_DEADLOCK FALSE
