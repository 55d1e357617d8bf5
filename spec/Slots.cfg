CONSTANTS
  Limits = {1, 2, 4, 5, 8, 16, 17, 33, 65, 130, 257, 1000000}
  Most = 300
  Waiting = 80
SPECIFICATION Spec
VIEW view
INVARIANTS Limit NoIdle Exited Returns
PROPERTIES Steady
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
