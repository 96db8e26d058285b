SPECIFICATION EagerSpec
CONSTANT Docs <- Thorough
INVARIANTS Faithful AllOfIt
PROPERTY Ends
CHECK_DEADLOCK FALSE
