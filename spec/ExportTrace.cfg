SPECIFICATION TSpec
CONSTANT Docs = {}
CONSTANT Readers = {"tags"}
CONSTANT Cut = FALSE
CONSTANT N = 0
CONSTANT MaxDump = 0
CONSTANT Targets = {}
CONSTANT MaxIds = 0
CONSTANT ExportUnits = {}
CONSTANT MayFill = TRUE
CONSTANT MayKill = TRUE
INVARIANTS AllOrNothing Accepted
CHECK_DEADLOCK FALSE
