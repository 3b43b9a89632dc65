SPECIFICATION SpecR
CONSTANTS
 Ticks <- MCTicks
 Values <- MCValues
 MaxSamples = 3
 NBins = 2
 Width = 4
 First = 0
INVARIANTS AccumulatorsAreMembers Partition Emit
PROPERTIES Local
CHECK_DEADLOCK FALSE
