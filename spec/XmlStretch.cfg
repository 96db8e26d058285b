SPECIFICATION SSpec
CONSTANT Docs <- StretchDocs
CONSTANT Qs <- SmallQs
INVARIANTS AllDelivered InOrder NoLeak DeleteSection Uniform SEmit
CHECK_DEADLOCK FALSE
