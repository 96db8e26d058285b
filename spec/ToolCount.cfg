SPECIFICATION CSpec
INVARIANTS Accounts NoReport Sound CEmit
PROPERTY Decides
CHECK_DEADLOCK FALSE
