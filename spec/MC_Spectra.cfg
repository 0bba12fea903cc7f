INIT Init
NEXT Next
INVARIANTS SameAtCrossing SameExponent SameAtPivot PivotIndependent
CHECK_DEADLOCK FALSE
