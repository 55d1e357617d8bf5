CONSTANTS
  C = 2
  M = 4
  Q = 2
  Kinds = {"req", "note", "ask"}
  Features = {"cancel", "exit", "block", "break", "bad", "push", "pre", "readerr", "fill"}
  Patience = 0
SPECIFICATION Spec
VIEW view
INVARIANTS Limit NoIdle Fifo Return Returns Exited Consistent
PROPERTIES Answers Replied
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
