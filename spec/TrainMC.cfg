SPECIFICATION Spec
CONSTANTS
 NS = {1, 2, 3, 4}
 BSS = {1, 2, 3, 5}
 MAXEP = 2
 NOPT = 1
 ALLPERMS = TRUE
INVARIANTS Complete
CHECK_DEADLOCK FALSE
