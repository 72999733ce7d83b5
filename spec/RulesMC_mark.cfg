SPECIFICATION Spec
CONSTANTS
  Mode = "mark"
  Deep = 0
VIEW vw
INVARIANTS StorageIrrelevant Sound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
