SPECIFICATION Spec
CONSTANTS
 Products <- TProducts
 Portals <- TPortals
 Olds <- TOlds
INVARIANT Once
INVARIANT NeverAhead
INVARIANT OnlyAsked
INVARIANT DownloadOnly
INVARIANT Fresh
INVARIANT Forced
INVARIANT Kept
INVARIANT Independent
INVARIANT Complete
CHECK_DEADLOCK FALSE
