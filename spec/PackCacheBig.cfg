SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4, 5, 6}
 Budget = 11
 MaxOps = 8
 Bug = "none"
INVARIANTS Exact Within Same Order
CHECK_DEADLOCK FALSE
