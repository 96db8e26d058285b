SPECIFICATION TSpec
CONSTANT Starts = {}
CONSTANT Alphabet = {}
CONSTANT MaxLen = 0
INVARIANTS Accepted Distinct Ordered Scalars SameConverted Asked
VIEW View
CHECK_DEADLOCK FALSE
