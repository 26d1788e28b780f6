SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3}
 MaxPerRound = 2
 MaxRounds = 4
 Bug = "none"
INVARIANTS There Disjoint NoLeak
PROPERTIES Steady
CHECK_DEADLOCK FALSE
