SPECIFICATION Spec
CONSTANTS
  Eager = TRUE
  NRanks = 1
INVARIANTS Report
