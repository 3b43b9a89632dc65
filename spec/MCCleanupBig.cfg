CONSTANTS
  NT = 5
  NG = 2
SPECIFICATION Spec
INVARIANT WhatIsLeftIsComplete
INVARIANT CloudsStay
INVARIANT Outer
INVARIANT Uniform
INVARIANT NoLone
INVARIANT SpeckleOnce
PROPERTY OnlyRemoves
CHECK_DEADLOCK FALSE
