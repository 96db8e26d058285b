SPECIFICATION RSpec
CONSTANT ObjSeqs <- KidSeqs
CONSTANT Docs = {}
INVARIANTS RoundTrip Prefix OneElementEach NoLeak REmit
CHECK_DEADLOCK FALSE
