SPECIFICATION Spec
CONSTANTS Max = 70 Widths <- W16 SLOPPY = FALSE
INVARIANTS Inside Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
