CONSTANT K = 4
SPECIFICATION Spec
INVARIANTS SavedIsSound PrintIt
CHECK_DEADLOCK FALSE
