SPECIFICATION TSpec
CONSTANT Files = {}
INVARIANTS NoCarry WellFormedFile Accepted
VIEW View
CHECK_DEADLOCK FALSE
