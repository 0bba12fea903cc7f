SPECIFICATION Spec
CONSTANT CheckResidual = TRUE
INVARIANTS SuccessIsTarget SuccessPossible NoFalseError Bracketing
PROPERTY Terminates
CHECK_DEADLOCK FALSE
