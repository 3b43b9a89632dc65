CONSTANTS
  Steps = 4
SPECIFICATION Spec
INVARIANT NoScans
INVARIANT Zenith
INVARIANT North
INVARIANT Rotated
INVARIANT LessKnown
INVARIANT Causal
CHECK_DEADLOCK FALSE
