SPECIFICATION SpecI
CONSTANTS
 Ticks <- MCTicks
 Values <- MCValues
 MaxSamples = 3
 MaxGap = 2
INVARIANTS CoincidingValuesKept MaskedExactlyBeyondLimit Emit
PROPERTIES MoreDataLessMask MissingChangesNothing Local
CHECK_DEADLOCK FALSE
