SPECIFICATION Spec
CONSTANTS
  MaxCount = 3
  MaxRounds = 2
  Spins = 1
  Spurious = FALSE
  Faulty = "none"
INVARIANTS TypeOK Exact
PROPERTIES Refines Ends
