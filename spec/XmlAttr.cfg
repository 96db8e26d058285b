SPECIFICATION Spec
CONSTANT Docs <- AttrDocs
INVARIANTS AllDelivered InOrder NoLeak DeleteSection Emit
CHECK_DEADLOCK FALSE
