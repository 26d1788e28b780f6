SPECIFICATION Spec
CONSTANTS
  MaxCount = 3
  MaxRounds = 2
  Spins = 0
  Spurious = TRUE
  Faulty = "none"
INVARIANTS TypeOK Exact
PROPERTIES Refines Ends
