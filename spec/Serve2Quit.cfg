CONSTANTS
  C = 2
  M = 3
  Q = 1
  Kinds = {"req", "ask", "tell"}
  Features = {"block", "exit", "quit"}
  Patience = 0
SPECIFICATION Spec
VIEW view
INVARIANTS Limit NoIdle Fifo Return Returns Exited Consistent Left
PROPERTIES Answers Replied
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
