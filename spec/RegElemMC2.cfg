SPECIFICATION Spec
CONSTANT MaxLen = 2
VIEW vw
INVARIANTS TypeOK StopLinesComplete OneStopLine
PROPERTIES KeepsStops Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
