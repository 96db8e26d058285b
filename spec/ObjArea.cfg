SPECIFICATION Spec
CONSTANT Starts <- TagStarts
CONSTANT Alphabet <- AreaCalls
CONSTANT MaxLen <- ObjLen
INVARIANTS MapSemantics Distinct Ordered Scalars SameConverted Asked Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
