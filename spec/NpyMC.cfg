CONSTANTS Dims = {"0", "1", "12"}
 MaxNd = 2
 Types = {"f", "S"}
 Elems = {"1", "4"}
SPECIFICATION Spec
INVARIANTS NothingEarly Finished
CHECK_DEADLOCK FALSE
