CONSTANTS
 Depth = 3
 Before = 2
 LEAKY = FALSE
SPECIFICATION Spec
INVARIANTS Same PrintIt
CHECK_DEADLOCK FALSE
