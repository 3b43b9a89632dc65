CONSTANTS
  Steps = 3
SPECIFICATION Spec
INVARIANT NoScans
INVARIANT Zenith
INVARIANT North
INVARIANT Rotated
INVARIANT LessKnown
INVARIANT Causal
INVARIANT Emit
CHECK_DEADLOCK FALSE
