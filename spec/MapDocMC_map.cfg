SPECIFICATION Spec
CONSTANTS
  Mode = "map"
  MaxDamage = 2
VIEW vw
INVARIANTS RoundTrip Judged Missing

ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
