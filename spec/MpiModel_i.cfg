SPECIFICATION MSpec
CONSTANTS
  Eager = FALSE
  NRanks = 2
INVARIANTS Good Note
PROPERTIES Finishes
POSTCONDITION EveryFlawSeen
