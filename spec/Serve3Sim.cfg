CONSTANTS
  C = 3
  M = 9
  Q = 6
  Kinds = {"req", "note", "ask", "tell"}
  Features = {"cancel", "exit", "block", "break", "bad", "push", "pre", "readerr", "fill", "quit"}
  Patience = 20
SPECIFICATION Spec
INVARIANTS Limit NoIdle Fifo Return Returns Exited Consistent EmitSim
PROPERTIES Answers Replied
CHECK_DEADLOCK FALSE
