CONSTANTS
 K = 5
 Files = {"a.log", "b.log"}
 Starts <- S2
 Loggers = 2
SPECIFICATION Spec
INVARIANTS Consecutive PrintIt
PROPERTY EarlierKept
CHECK_DEADLOCK FALSE
