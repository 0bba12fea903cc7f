SPECIFICATION Spec
CONSTANT Waves = {"long", "edge", "mid", "short"}
CONSTANT MaxLen = 3
INVARIANT InPlace
INVARIANT Independent
CHECK_DEADLOCK FALSE
