CONSTANTS Start = {1, 2, 3}
 Changes = 2
SPECIFICATION Spec
INVARIANTS OnlyNetworks ItselfFirst Anywhere PrintIt
CHECK_DEADLOCK FALSE
