SPECIFICATION SSpec
CONSTANT Files <- StretchBases
CONSTANT Ks <- SmallKs
INVARIANTS Faithful Complete NoCarry Uniform SEmit
CHECK_DEADLOCK FALSE
