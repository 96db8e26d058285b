SPECIFICATION SSpec
CONSTANT Docs <- SectionDocs
CONSTANT Qs <- SmallQs
INVARIANTS AllDelivered InOrder NoLeak DeleteSection Uniform SEmit
CHECK_DEADLOCK FALSE
