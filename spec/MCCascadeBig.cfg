SPECIFICATION Spec
CONSTANTS N = 1  M = 4  Sp = 1  Bg = 3
INVARIANTS Exclusive AerosolIsTheRest MeltingKept EchoesOnly ClutterAlone ColdInsects NothingNew
CHECK_DEADLOCK FALSE
