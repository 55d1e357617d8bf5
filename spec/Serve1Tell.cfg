CONSTANTS
  C = 1
  M = 3
  Q = 2
  Kinds = {"req", "note", "tell"}
  Features = {"exit", "block", "break"}
  Patience = 0
SPECIFICATION Spec
VIEW view
INVARIANTS Limit NoIdle Fifo Return Returns Exited Consistent
PROPERTIES Answers Replied
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
