CONSTANTS
  C = 4
  M = 12
  Q = 8
  Kinds = {"req", "note", "ask", "tell"}
  Features = {"cancel", "block", "bad", "push", "pre", "fill", "quit"}
  Patience = 20
SPECIFICATION Spec
INVARIANTS Limit NoIdle Fifo Return Returns Exited Consistent EmitSim
PROPERTIES Answers Replied
CHECK_DEADLOCK FALSE
