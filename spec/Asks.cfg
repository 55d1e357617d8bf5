CONSTANTS
  Groups = {"a", "b"}
SPECIFICATION Spec
VIEW view
INVARIANTS Over
PROPERTIES AllRead Own
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
