SPECIFICATION Spec
INVARIANTS SameMeaning PrintIt
CHECK_DEADLOCK FALSE
