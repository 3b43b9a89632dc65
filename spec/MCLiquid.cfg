SPECIFICATION Spec
CONSTANTS
 NGates = 6
 Paths <- MCPaths
INVARIANTS Minimal Enough OnlyAbove InRange Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
