SPECIFICATION OSpec
CONSTANT Years = {}
CONSTANT Span = 0
CONSTANT Seconds = {}
INVARIANTS Total Transitive EmitPair
CHECK_DEADLOCK FALSE
