SPECIFICATION Spec
CONSTANTS
  MaxCount = 2
  MaxRounds = 2
  Spins = 0
  Spurious = FALSE
  Faulty = "one"
INVARIANTS TypeOK Exact
PROPERTIES Refines Ends
