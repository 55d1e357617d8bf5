CONSTANTS
  K = 4
  Kinds = {"req", "note"}
SPECIFICATION Spec
VIEW view
INVARIANT TypeOK
PROPERTIES Completes Addressed Drained NeverSent
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
