SPECIFICATION Spec
CONSTANT Docs <- SeqDocs
INVARIANTS AllDelivered InOrder NoLeak DeleteSection Emit
CHECK_DEADLOCK FALSE
