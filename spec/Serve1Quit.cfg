CONSTANTS
  C = 1
  M = 2
  Q = 2
  Kinds = {"req", "note", "ask", "tell"}
  Features = {"cancel", "exit", "block", "break", "push", "quit"}
  Patience = 0
SPECIFICATION Spec
VIEW view
INVARIANTS Limit NoIdle Fifo Return Returns Exited Consistent Left
PROPERTIES Answers Replied
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
