SPECIFICATION Spec
CONSTANTS N = 2  M = 2  Sp = 1  Bg = 2
INVARIANTS Exclusive AerosolIsTheRest MeltingKept EchoesOnly ClutterAlone ColdInsects NothingNew
CHECK_DEADLOCK FALSE
