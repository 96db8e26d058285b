SPECIFICATION Spec
CONSTANT Files <- DeltaFiles
INVARIANTS Faithful Complete NoCarry DeletedOnlyIfMarked WellFormedFile Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
