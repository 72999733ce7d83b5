SPECIFICATION Spec
CONSTANTS
  Variant = "map"
  Edits = 1
  Drops = 1
VIEW vw
INVARIANTS SelfContained OncePerName IndexIsScan Submap
PROPERTIES KeepsAlive OnlyGrows Frame ConvIsClosure
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
