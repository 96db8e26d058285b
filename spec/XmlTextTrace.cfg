SPECIFICATION TSpec
CONSTANT Alphabet = {}
CONSTANT MaxLen = 0
CONSTANT MaxOther = 0
INVARIANT Accepted
VIEW View
CHECK_DEADLOCK FALSE
