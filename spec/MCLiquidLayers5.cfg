SPECIFICATION Spec
CONSTANTS NGates = 6
 Levels <- MCDeepLevels
 Dz = 50
 Colds <- MCColds
INVARIANTS LayersHavePeaks EdgesAreMeasured AtLeastThree OnlyExtendsUp NothingWithoutPeak Emit
CHECK_DEADLOCK FALSE
