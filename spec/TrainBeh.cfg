SPECIFICATION Spec
CONSTANTS
 NS = {1, 2, 3, 5}
 BSS = {1, 2, 4}
 MAXEP = 3
 NOPT = 2
 ALLPERMS = FALSE
INVARIANTS Complete Emit
CHECK_DEADLOCK FALSE
