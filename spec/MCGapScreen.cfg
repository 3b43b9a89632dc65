SPECIFICATION Spec
CONSTANTS NBins = 6
 Reach = 2
INVARIANTS OnlyCovered All NothingLostIfComplete Error Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
