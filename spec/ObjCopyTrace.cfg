SPECIFICATION TSpec
CONSTANT Kinds = {}
CONSTANT Starts = {}
CONSTANT Edits <- AnyEdits
CONSTANT MaxLen = 0
INVARIANTS Accepted ByLineage CopiesEqual Equivalence
VIEW View
CHECK_DEADLOCK FALSE
