CONSTANTS
  MaxBuf = 3
  MaxLast = 2
  Kinds = {"msg", "ctlast", "ctfirst", "long", "uni", "empty"}
  Tag = "P13"
SPECIFICATION Spec
VIEW view
INVARIANT TypeOK
PROPERTIES Complete Clean
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
