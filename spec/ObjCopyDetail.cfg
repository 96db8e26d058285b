SPECIFICATION Spec
CONSTANT Starts <- DetailStarts
CONSTANT Edits <- NoEdits
CONSTANT MaxLen <- CopyLen
INVARIANTS Equivalence Alike Emit
CHECK_DEADLOCK FALSE
