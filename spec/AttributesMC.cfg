SPECIFICATION Spec
CONSTANTS
  Texts = {"1", "true", "50", "-2.5", "5~m/s", "x", "9000000000"}
  Names = {"speed_limit", "foo"}
VIEW vw
INVARIANTS Coherent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
