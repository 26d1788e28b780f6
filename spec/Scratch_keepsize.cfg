SPECIFICATION Spec
CONSTANTS Sizes = {1, 2}
 MaxPerRound = 2
 MaxRounds = 4
 Bug = "keepsize"
INVARIANTS There Disjoint NoLeak
PROPERTIES Steady
CHECK_DEADLOCK FALSE
