SPECIFICATION SpecA
CONSTANTS
  Times = {1, 2, 3, 4, 5, 6}
  MaxLen = 3
  Steps = 3
INVARIANTS Increasing FirstComeWins NothingNewerLost Idempotent
PROPERTIES OnlyGrows RetTruth
CHECK_DEADLOCK FALSE
