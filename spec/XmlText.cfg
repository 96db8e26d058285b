SPECIFICATION Spec
CONSTANT Alphabet = {97, 38, 60, 62, 34, 39, 9, 10, 13, 32, 59, 35, 93, 233}
INVARIANTS NeverRejected Seen All Emit
CHECK_DEADLOCK FALSE
