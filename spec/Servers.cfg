CONSTANTS
  Ids = {1, 2}
  Servers = {1, 2}
SPECIFICATION Spec
VIEW view
INVARIANTS TypeOK Quiet
PROPERTIES Alone Fresh
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
