SPECIFICATION Spec
CONSTANT Kinds = {"xml", "osc"}
CONSTANT Calls <- StdCalls
INVARIANTS HeaderOnceFirst Objects NothingAfterEnd CompleteAtLast EndMeansClosed Refused OpenUntilClosed Emit
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
