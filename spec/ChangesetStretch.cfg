SPECIFICATION SSpec
CONSTANT Docs <- StretchDocs
CONSTANT Readers = {"full", "tags"}
CONSTANT Qs <- SmallQs
INVARIANTS Complete TruePrefix TagsAlone NothingOutside Uniform SEmit
CHECK_DEADLOCK FALSE
