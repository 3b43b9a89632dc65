SPECIFICATION Spec
INVARIANTS Powers Doubling Tripling
CHECK_DEADLOCK FALSE
