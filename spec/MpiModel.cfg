SPECIFICATION MSpec
CONSTANTS
  Eager = TRUE
  NRanks = 3
INVARIANTS Good Note
PROPERTIES Finishes
POSTCONDITION EveryFlawSeen
