SPECIFICATION Spec
CONSTANTS
  Mode = "speed"
  Deep = 0
VIEW vw
INVARIANTS Precedence
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
