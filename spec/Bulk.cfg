CONSTANTS
  Groups = {"a", "b"}
  Generations = 2
SPECIFICATION Spec
VIEW view
INVARIANTS Over
PROPERTIES Apart Once
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
