CONSTANTS
  NT = 4
  NG = 2
SPECIFICATION Spec
INVARIANT WhatIsLeftIsComplete
INVARIANT CloudsStay
INVARIANT Outer
INVARIANT Uniform
INVARIANT NoLone
INVARIANT SpeckleOnce
INVARIANT Emit
PROPERTY OnlyRemoves
CHECK_DEADLOCK FALSE
