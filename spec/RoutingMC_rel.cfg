SPECIFICATION Spec
CONSTANTS
  Mode = "rel"
VIEW vw
INVARIANTS RelInv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
