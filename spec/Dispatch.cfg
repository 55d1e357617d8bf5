CONSTANTS
  Bound = 0
SPECIFICATION Spec
VIEW view
PROPERTIES RunsOnlyWhenRight Answers
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
