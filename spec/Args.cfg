SPECIFICATION Spec
CONSTANTS NO = 3
 NF = 4
 LEN = 5
 Flaw = "none"
INVARIANTS Untouched Repeatable
