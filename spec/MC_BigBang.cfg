SPECIFICATION Spec
CONSTANT Matter <- MatterSet
CONSTANT Lambda <- LambdaSet
CONSTANT Span = 130
INVARIANT FateIsMet
INVARIANT Exclusive
INVARIANT Monotone
CHECK_DEADLOCK FALSE
