SPECIFICATION Spec
CONSTANTS
 NTimes = 3
 NGates = 4
 MaxSize = 2
INVARIANTS Sound OrderFree Bracket NoSmall Emit
CHECK_DEADLOCK FALSE
