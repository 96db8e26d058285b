SPECIFICATION TSpec
CONSTANT Starts = {}
CONSTANT Alphabet = {}
CONSTANT MaxLen = 0
INVARIANTS Accepted
VIEW View
CHECK_DEADLOCK FALSE
