SPECIFICATION Spec
CONSTANT Docs <- KidDocs
INVARIANTS AllDelivered InOrder NoLeak DeleteSection Emit
CHECK_DEADLOCK FALSE
