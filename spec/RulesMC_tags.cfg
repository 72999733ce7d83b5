SPECIFICATION Spec
CONSTANTS
  Mode = "tags"
  Deep = 0
VIEW vw
INVARIANTS BothWays Sound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
