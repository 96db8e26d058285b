SPECIFICATION Spec
CONSTANT Starts <- AllStarts
CONSTANT Alphabet <- AllCalls
CONSTANT MaxLen <- ObjLen
INVARIANTS MapSemantics Distinct Ordered Scalars SameConverted Asked Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
