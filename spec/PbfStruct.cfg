SPECIFICATION Spec
CONSTANT Files <- StructFiles
INVARIANTS Faithful Complete NoCarry DeletedOnlyIfMarked WellFormedFile Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
