CONSTANTS
 K = 5
 Values <- V6
 Patiences <- P5
SPECIFICATION Spec
INVARIANTS StopsExactly HoldsBest FirstCounts PrintIt
PROPERTY Stays
CHECK_DEADLOCK FALSE
