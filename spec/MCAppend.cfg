SPECIFICATION SpecA
CONSTANTS
  Times = {1, 2, 3, 4, 5}
  MaxLen = 3
  Steps = 2
INVARIANTS Increasing FirstComeWins NothingNewerLost Idempotent Emit
PROPERTIES OnlyGrows RetTruth
CHECK_DEADLOCK FALSE
