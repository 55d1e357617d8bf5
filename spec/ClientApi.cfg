SPECIFICATION Spec
VIEW view
INVARIANT Waits
PROPERTY Gate
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
