SPECIFICATION RegSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
