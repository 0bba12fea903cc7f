SPECIFICATION Spec
CONSTANT Steps = 800
CONSTANT Ks = {2, 3, 8}
INVARIANT SameMode
INVARIANT Frozen
CHECK_DEADLOCK FALSE
