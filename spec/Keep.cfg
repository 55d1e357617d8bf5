CONSTANTS
  MaxFlight = 2
  MaxOrphans = 1
SPECIFICATION Spec
VIEW view
INVARIANTS Exact AtRest Off
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
