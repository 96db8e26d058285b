SPECIFICATION Spec
CONSTANT Files <- MetaFiles
INVARIANTS Faithful Complete NoCarry DeletedOnlyIfMarked WellFormedFile Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
