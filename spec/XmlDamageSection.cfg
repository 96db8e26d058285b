SPECIFICATION DSpec
CONSTANT Docs <- SectionDocs
INVARIANTS DamagedPrefix AllBeforeDamage NeverComplete NeverRefusesGood DEmit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
