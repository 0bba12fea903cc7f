SPECIFICATION Spec
INVARIANTS Sound Live
CHECK_DEADLOCK FALSE
