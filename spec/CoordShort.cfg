SPECIFICATION Spec
CONSTANT Stems <- ShortStems
INVARIANTS DistOk Exact RangeOk Emit
CHECK_DEADLOCK FALSE
