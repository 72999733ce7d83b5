SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Pts = {1, 2, 3, 4, 5, 6, 7, 8}
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
