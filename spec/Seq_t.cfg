SPECIFICATION Spec
CONSTANTS MaxT = 30
INVARIANTS Inside Starts Written
CHECK_DEADLOCK FALSE
