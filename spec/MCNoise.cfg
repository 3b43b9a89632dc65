CONSTANTS
  Values <- MCValues
  N = 5
  Tolerated = 1
  NoiseMin = 10
SPECIFICATION Spec
INVARIANT Physical
INVARIANT Echo
INVARIANT Same
INVARIANT Noisier
INVARIANT Constant
INVARIANT Between
INVARIANT Gaps
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
