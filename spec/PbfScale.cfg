SPECIFICATION Spec
CONSTANT Files <- ScaleFiles
INVARIANTS Faithful Complete NoCarry DeletedOnlyIfMarked WellFormedFile Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
