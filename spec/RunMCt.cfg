CONSTANTS
 Depth = 4
 Before = 2
 LEAKY = FALSE
SPECIFICATION Spec
INVARIANTS Same PrintIt
CHECK_DEADLOCK FALSE
