SPECIFICATION SSpec
CONSTANT Docs <- SectionDocs
INVARIANTS ShowsAll SEmit
PROPERTY Decides
CHECK_DEADLOCK FALSE
