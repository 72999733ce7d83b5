SPECIFICATION Spec
CONSTANTS
  Regs = {0, 1, 3}
  MaxSpur = 1
INVARIANTS Inv
PROPERTY Forward
CHECK_DEADLOCK FALSE
