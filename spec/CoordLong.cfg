SPECIFICATION Spec
CONSTANT Stems <- LongStems
INVARIANTS DistOk Exact RangeOk Emit
CHECK_DEADLOCK FALSE
