SPECIFICATION Spec
CONSTANTS
 THREADS = 3
 SAMPLES = 4
 SHARED = FALSE
INVARIANT EverySampleOnce
CHECK_DEADLOCK FALSE
