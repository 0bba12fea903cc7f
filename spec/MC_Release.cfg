SPECIFICATION Spec
CONSTANT Numbers = {0, 1, 2, 9, 10}
CONSTANT Nums = {0, 1}
INVARIANT Only
PROPERTY Valid
CHECK_DEADLOCK FALSE
