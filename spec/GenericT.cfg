CONSTANTS
  M = 3
  Q = 3
  Patience = 0
SPECIFICATION Spec
VIEW view
INVARIANTS Waits Returns
PROPERTIES Contract OnePermit Kept Stays
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
