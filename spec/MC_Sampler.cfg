SPECIFICATION Spec
INVARIANT Neutral
INVARIANT AtPivot
INVARIANT Inflation
INVARIANT Single
CHECK_DEADLOCK FALSE
