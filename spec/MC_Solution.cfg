SPECIFICATION Spec
CONSTANT Pool = {"alpha", "beta", "t"}
CONSTANT EvKinds <- Kinds
CONSTANT MaxEv = 2
INVARIANT IndexIsBijective
PROPERTY RegistryGrows
CHECK_DEADLOCK FALSE
