SPECIFICATION Spec
CONSTANTS
  MaxCount = 4
  MaxRounds = 2
  Spins = 1
  Spurious = TRUE
  Faulty = "none"
INVARIANTS TypeOK Exact
PROPERTIES Refines Ends
