SPECIFICATION Spec
CONSTANT Sources <- SomeSources
CONSTANT Calls <- AllCalls
INVARIANTS EachCallExact Refines Emit Stretches
PROPERTY EndStays
CHECK_DEADLOCK FALSE
