SPECIFICATION Spec
CONSTANTS N = 1  M = 3  Sp = 1  Bg = 2
INVARIANTS Exclusive AerosolIsTheRest MeltingKept EchoesOnly ClutterAlone ColdInsects NothingNew
CHECK_DEADLOCK FALSE
