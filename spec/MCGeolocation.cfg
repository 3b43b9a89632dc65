SPECIFICATION Spec
INVARIANTS GpsFirst AltNotGps SiteBeatsFile NothingLost WrappedRange SignKept OneNumber NotOutside Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
