SPECIFICATION Spec
CONSTANTS
  MaxCount = 2
  MaxRounds = 2
  Spins = 0
  Spurious = TRUE
  Faulty = "once"
INVARIANTS TypeOK Exact
PROPERTIES Refines Ends
