SPECIFICATION ESpec
CONSTANT Docs <- ExportDocs
CONSTANT Readers = {"tags"}
CONSTANT Cut = FALSE
INVARIANTS AllOrNothing Complete22 Succeeds Refuses EmitEnd
CHECK_DEADLOCK FALSE
CONSTANT N = 0
