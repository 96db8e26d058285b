SPECIFICATION DSpec
CONSTANT Docs <- DamageDocs
INVARIANTS DamagedPrefix AllBeforeDamage NeverComplete NeverRefusesGood DEmit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
