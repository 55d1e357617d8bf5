CONSTANTS
  N = 2
  Ids = {"A", "B"}
  Ends = {"shut", "exit"}
SPECIFICATION Spec
VIEW view
INVARIANTS TypeOK OneInit OneShutdown ExitAborts OneOwner
PROPERTIES InitOnce Gated Monotone ExitFinal Isolated Ended NoProgress
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
