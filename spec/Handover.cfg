SPECIFICATION HSpec
CONSTANT Sources <- SomeSources
CONSTANT Calls <- HCalls
INVARIANTS HEachCallExact Refines NothingLost HEmit
CHECK_DEADLOCK FALSE
