SPECIFICATION Spec
CONSTANTS
  Mode = "cost"
VIEW vw
INVARIANTS SearchInv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
