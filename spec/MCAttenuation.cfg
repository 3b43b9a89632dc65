SPECIFICATION Spec
CONSTANTS NGates = 4
 Amounts = 2
INVARIANTS CorrectedIsAttenuated NothingForFree Grows RainExcludesLiquid OnceAttenuatedAlways
CHECK_DEADLOCK FALSE
