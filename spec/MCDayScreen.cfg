SPECIFICATION SpecD
CONSTANTS
  Day = 86400
  Times <- MCTimes
  MaxRows = 4
  MinProfiles = 1
INVARIANTS DoneIsScreened FailsOnlyWithoutData Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
