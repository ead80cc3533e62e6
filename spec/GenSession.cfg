INIT InitS
NEXT NextS
CHECK_DEADLOCK FALSE
