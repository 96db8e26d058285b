SPECIFICATION TSpec
CONSTANT MaxBlobs = 0
CONSTANT MaxN = 0
INVARIANTS TruePrefix AllBeforeDamage Accepted
VIEW TView
CHECK_DEADLOCK FALSE
