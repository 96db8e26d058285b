SPECIFICATION EagerSpec
CONSTANT Docs <- Quick
INVARIANTS Faithful AllOfIt
PROPERTY Ends
CHECK_DEADLOCK FALSE
