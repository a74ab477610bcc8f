SPECIFICATION Spec
CONSTANTS
 MAXLEN = 3
 FORGETFUL = FALSE
INVARIANTS Right NameBack Emit
CHECK_DEADLOCK FALSE
