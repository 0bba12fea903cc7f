INIT Init
NEXT Next
INVARIANT DefaultsApply
CHECK_DEADLOCK FALSE
