CONSTANTS
  Ids = {1, 2, 3}
  Servers = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS TypeOK Quiet EmitSim
PROPERTIES Alone Fresh
CHECK_DEADLOCK FALSE
