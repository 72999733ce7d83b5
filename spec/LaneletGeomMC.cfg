SPECIFICATION Spec
CONSTANTS
  MinLen = 2
  MaxLen = 3
VIEW vw
INVARIANTS Coherent Turned
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
