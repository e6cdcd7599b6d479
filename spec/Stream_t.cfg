SPECIFICATION Spec
CONSTANTS
  MaxN = 10
  MaxT = 24
  MaxSets = 3
INVARIANTS OneWindow Consecutive Spacing First Order AsFunction Closed NoMore
PROPERTIES Drains
