SPECIFICATION Spec
CONSTANTS
  Mode = "doc"
  MaxDamage = 2
VIEW vw
INVARIANTS LoadOk
PROPERTY Separate
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
