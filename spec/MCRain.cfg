SPECIFICATION Spec
INVARIANTS NoRainInSnow DisdrometerDecides RadarOtherwise SureRain Emit
PROPERTY Decided
CHECK_DEADLOCK FALSE
