SPECIFICATION SpecA
CONSTANTS
  MaxLen = 6
  Drops = {0, 1, 3}
  Starts = {0, 2}
INVARIANTS WalkMeetsDefinition TruthRecovered WellFormed Emit
CHECK_DEADLOCK FALSE
