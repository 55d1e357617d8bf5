CONSTANTS
  M = 4
  Q = 6
  Patience = 20
SPECIFICATION Spec
INVARIANTS Waits Returns EmitSim
PROPERTIES Contract OnePermit Kept Stays
CHECK_DEADLOCK FALSE
