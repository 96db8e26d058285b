SPECIFICATION Spec
INVARIANTS TruePrefix AllBeforeDamage EndIsEnd NeverRefusesGood Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
