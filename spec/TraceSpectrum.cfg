INIT Init
NEXT Next
CONSTANT Frozen = 60
CHECK_DEADLOCK FALSE
