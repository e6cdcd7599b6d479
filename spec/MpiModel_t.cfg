SPECIFICATION MSpec
CONSTANTS
  Eager = FALSE
  NRanks = 3
INVARIANTS Good Note
PROPERTIES Finishes
POSTCONDITION EveryFlawSeen
