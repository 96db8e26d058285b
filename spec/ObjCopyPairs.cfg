SPECIFICATION Spec
CONSTANT Starts <- PairStarts
CONSTANT Edits <- NoEdits
CONSTANT MaxLen <- CopyLen
INVARIANTS Equivalence Alike Emit
CHECK_DEADLOCK FALSE
