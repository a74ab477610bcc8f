CONSTANTS
 N = 3
 Runs = 2
SPECIFICATION Spec
INVARIANTS Alone PrintIt
CHECK_DEADLOCK FALSE
