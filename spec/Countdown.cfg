SPECIFICATION CDSpec
CONSTANT MaxCount = 4
INVARIANTS CDTypeOK LastReported
