SPECIFICATION Spec
CONSTANTS NT = 6
 P = 2
 Vals = {0, 1}
 Stride4 = 2
INVARIANTS Inside Conj Hermitian Psd TraceIsEnergy OneSidedTotal Parseval
CHECK_DEADLOCK FALSE
