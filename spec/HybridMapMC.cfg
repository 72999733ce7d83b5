SPECIFICATION Spec
CONSTANTS
  Slots = {"A", "B"}
  KeyOrder <- KeyOrderMC
  Known <- KnownMC
  Values = {"v1"}
VIEW vw
INVARIANTS TypeOK ViewFaithful
PROPERTIES Frame ReadOnly
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
