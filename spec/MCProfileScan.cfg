SPECIFICATION Spec
CONSTANTS
 Kinds <- MCKinds
 MaxGates = 4
INVARIANTS ScanIsFold SignalIffStatus UndetectedAboveSevere Emit
PROPERTIES Prefix
CHECK_DEADLOCK FALSE
