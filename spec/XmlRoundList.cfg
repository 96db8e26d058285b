SPECIFICATION RSpec
CONSTANT ObjSeqs <- ListSeqs
CONSTANT Docs = {}
INVARIANTS RoundTrip Prefix OneElementEach NoLeak REmit
CHECK_DEADLOCK FALSE
