CONSTANT K = 3
SPECIFICATION Spec
INVARIANTS SavedIsSound PrintIt
CHECK_DEADLOCK FALSE
