SPECIFICATION Spec
CONSTANTS
  Slots = {"A", "B", "C", "P"}
  KeyOrder <- KeyOrderT
  Known <- KnownT
  Values = {"v1", "v2"}
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
