INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT StrT <- OtherStr
CONSTANT Alt = 1
