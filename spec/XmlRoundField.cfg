SPECIFICATION RSpec
CONSTANT ObjSeqs <- FieldSeqs
CONSTANT Docs = {}
INVARIANTS RoundTrip Prefix OneElementEach NoLeak REmit
CHECK_DEADLOCK FALSE
