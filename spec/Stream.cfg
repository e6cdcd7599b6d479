SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxT = 18
  MaxSets = 2
INVARIANTS OneWindow Consecutive Spacing First Order AsFunction Closed NoMore
PROPERTIES Drains
