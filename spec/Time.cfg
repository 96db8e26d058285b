SPECIFICATION Spec
INVARIANTS CalendarAgrees EpochIsZero RoundTrip Emit
CHECK_DEADLOCK FALSE
