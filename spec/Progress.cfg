CONSTANTS
  H = 2
  Limit = 1
SPECIFICATION Spec
VIEW view
INVARIANTS Ordered Monotone
PROPERTY Silent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
