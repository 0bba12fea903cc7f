SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS InForce Selected Forgets Idempotent Inert Emit
CHECK_DEADLOCK FALSE
