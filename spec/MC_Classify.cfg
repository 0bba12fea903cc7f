SPECIFICATION Spec
CONSTANT MaxFlips = 3
INVARIANTS StartIsTrue EndIsTrue Complete Ordered
CHECK_DEADLOCK FALSE
