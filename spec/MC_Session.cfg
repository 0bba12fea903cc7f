SPECIFICATION Spec
CONSTANTS
  Families = {"potential", "background", "universe", "law", "setup"}
  MaxObjects = 2
  MaxOps = 5
INVARIANTS Emit AnswersByRecipe EveryAnswerHasItsRecipe
PROPERTY ObjectsAreConstant
CHECK_DEADLOCK FALSE
