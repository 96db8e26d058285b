SPECIFICATION Spec
CONSTANT Starts <- OneStarts
CONSTANT Edits <- FewEdits
CONSTANT MaxLen <- CopyLen
INVARIANTS ByLineage CopiesEqual Alike Equivalence Emit
PROPERTY Independent
CHECK_DEADLOCK FALSE
