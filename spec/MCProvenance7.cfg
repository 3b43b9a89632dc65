SPECIFICATION Spec
CONSTANTS MaxFiles = 7
 Times = {1, 2}
CONSTRAINT Ordered
INVARIANTS OwnFirst Complete Distinct NewestFirst NeverLost Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
