SPECIFICATION Spec
CONSTANTS MaxFiles = 6
 Times = {1, 2}
CONSTRAINT Ordered
INVARIANTS OwnFirst Complete Distinct NewestFirst NeverLost Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
