SPECIFICATION Spec
CONSTANT Docs <- AttrDocs
CONSTANT Readers = {"full", "tags"}
INVARIANTS Complete TruePrefix TagsAlone Agree NothingOutside Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
