CONSTANTS
  H = 1
  Limit = 4
SPECIFICATION Spec
INVARIANTS Ordered Monotone
PROPERTY Silent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
