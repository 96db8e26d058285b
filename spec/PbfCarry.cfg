SPECIFICATION Spec
CONSTANT Files <- CarryFiles
INVARIANTS Faithful Complete NoCarry DeletedOnlyIfMarked WellFormedFile Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
