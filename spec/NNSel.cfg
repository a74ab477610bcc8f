SPECIFICATION Spec
CONSTANTS
 MAXSEL = 3
 PAIRS <- DefaultPairs
INVARIANTS HistoryFree LastOneWins Pure Emit
CHECK_DEADLOCK FALSE
