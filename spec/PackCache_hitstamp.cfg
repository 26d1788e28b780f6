SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4}
 Budget = 7
 MaxOps = 7
 Bug = "hitstamp"
INVARIANTS Exact Within Same Order
CHECK_DEADLOCK FALSE
