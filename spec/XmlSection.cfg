SPECIFICATION Spec
CONSTANT Docs <- SectionDocs
INVARIANTS AllDelivered InOrder NoLeak DeleteSection Emit
CHECK_DEADLOCK FALSE
