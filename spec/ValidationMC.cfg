SPECIFICATION Spec
VIEW vw
INVARIANTS Sane Clean

ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
