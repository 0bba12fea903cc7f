INIT Init
NEXT Next
INVARIANTS OneAmplitude NothingIgnored Monotone
CHECK_DEADLOCK FALSE
