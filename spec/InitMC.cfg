SPECIFICATION Spec
INVARIANTS LastAlone Emit
CHECK_DEADLOCK FALSE
