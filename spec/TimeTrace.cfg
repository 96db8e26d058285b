SPECIFICATION TSpec
CONSTANT Years = {}
CONSTANT Span = 0
CONSTANT Seconds = {}
CONSTANT Ahead = {}
CONSTANT Behind = {}
INVARIANT Accepted
CHECK_DEADLOCK FALSE
