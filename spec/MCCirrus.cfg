SPECIFICATION Spec
INVARIANT OnlyRemoves
INVARIANT KeepsLiquid
INVARIANT Perfect
INVARIANT Blind
INVARIANT Sane
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
