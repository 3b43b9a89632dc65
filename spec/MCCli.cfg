SPECIFICATION Spec
CONSTANTS
 Products <- QProducts
 Portals <- QPortals
 Olds <- QOlds
INVARIANT Once
INVARIANT NeverAhead
INVARIANT OnlyAsked
INVARIANT DownloadOnly
INVARIANT Fresh
INVARIANT Forced
INVARIANT Kept
INVARIANT Independent
INVARIANT Complete
CHECK_DEADLOCK FALSE
