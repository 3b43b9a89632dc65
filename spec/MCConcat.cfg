SPECIFICATION SpecConcat
CONSTANTS
  Universe <- MCUniverse
  Names <- MCNames
INVARIANTS InOrder Complete NothingElse ErrorIff Emit
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
