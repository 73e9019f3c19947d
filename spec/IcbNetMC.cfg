SPECIFICATION Spec
CONSTANTS Size = 3
 Cap = 7
 Queue = 2
 Most = 7
INVARIANTS InOrder OnlyLost Prefix LossNeedsFull
PROPERTY Arrives
CHECK_DEADLOCK FALSE
