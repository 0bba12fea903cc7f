SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS NoSpurious Sound CompleteD Ordered TermOnce
CHECK_DEADLOCK FALSE
