CONSTANTS
  K = 9
  Kinds = {"req", "raw", "note"}
SPECIFICATION Spec
INVARIANTS TypeOK EmitSim
PROPERTIES Completes Addressed Drained NeverSent
CHECK_DEADLOCK FALSE
