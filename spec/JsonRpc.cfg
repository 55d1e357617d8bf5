SPECIFICATION Spec
VIEW view
INVARIANTS Sane Answers OneToOne
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
