SPECIFICATION Spec
CONSTANTS
 MAXLEN = 5
 LEAKY = FALSE
 FAMILY = "net"
INVARIANTS NothingOwed Closed Emit
CHECK_DEADLOCK FALSE
