SPECIFICATION Spec
CONSTANTS
  Variant = "sub"
  Edits = 2
  Drops = 2
VIEW vw
INVARIANTS SelfContained OncePerName IndexIsScan Submap
PROPERTIES KeepsAlive OnlyGrows Frame ConvIsClosure
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
