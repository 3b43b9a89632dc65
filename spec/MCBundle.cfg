SPECIFICATION SpecB
CONSTANTS
  Pool <- MCPool
  MaxFiles = 3
INVARIANTS ScanMeetsDefinition NeverWrongDay Emit
CHECK_DEADLOCK FALSE
