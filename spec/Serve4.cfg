CONSTANTS
  C = 4
  M = 5
  Q = 2
  Kinds = {"req", "note"}
  Features = {"cancel", "exit", "bad"}
  Patience = 0
SPECIFICATION Spec
VIEW view
INVARIANTS Limit NoIdle Fifo Return Returns Exited Consistent
PROPERTIES Answers Replied
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
