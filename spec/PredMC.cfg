CONSTANTS
 THREADS = 3
 LAYERS = 2
 SAMPLES = 4
 SHARED = FALSE
SPECIFICATION Spec
INVARIANTS EqualsSingle AllDone
CHECK_DEADLOCK FALSE
