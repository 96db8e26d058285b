SPECIFICATION SSpec
CONSTANT Docs <- DamageDocs
INVARIANTS ShowsAll SEmit
PROPERTY Decides
CHECK_DEADLOCK FALSE
