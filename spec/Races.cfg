SPECIFICATION Spec
INVARIANTS Explained Owned
PROPERTIES Final
POSTCONDITION Report
CHECK_DEADLOCK FALSE
