INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Documented
INVARIANT NeverOverdetermined
INVARIANT InstantIsConsistent
INVARIANT NoNegative
INVARIANT SignMatches
INVARIANT PositiveH
INVARIANT MatchingReference
