CONSTANT N = 2
SPECIFICATION ISpec
INVARIANTS AsAlone NoWaiting
PROPERTIES OnlyOne
CHECK_DEADLOCK FALSE
