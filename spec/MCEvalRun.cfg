SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANT NeverLost
INVARIANT Emit
PROPERTY Kept
PROPERTY NoFault
PROPERTY Ends
