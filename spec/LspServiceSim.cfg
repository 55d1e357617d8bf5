CONSTANTS
  N = 6
  Ids = {"A", "B", "C", "D", "E"}
  Ends = {}
SPECIFICATION Spec
INVARIANTS TypeOK OneInit OneShutdown ExitAborts OneOwner EmitSim
PROPERTIES InitOnce Gated Monotone ExitFinal Isolated Ended NoProgress
CHECK_DEADLOCK FALSE
