SPECIFICATION Spec
CONSTANTS
 Widths = {0, 7, 8, 9, 14, 15, 16, 17, 20, 30}
 Labels = {"", "x", "Train: ", "T%d\\ "}
 Sizes = {1, 2, 3, 5, 7, 8, 12, 20}
 Batches = {1, 2, 3, 4, 8, 50}
INVARIANTS OneRow Honest
PROPERTY Forward
CHECK_DEADLOCK FALSE
