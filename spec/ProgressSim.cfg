CONSTANTS
  H = 4
  Limit = 8
SPECIFICATION Spec
INVARIANTS Ordered Monotone EmitSim
PROPERTY Silent
CHECK_DEADLOCK FALSE
