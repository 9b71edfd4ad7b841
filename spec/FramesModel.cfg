CONSTANT Depth = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Bijective
INVARIANT Little
INVARIANT Isomorphic
INVARIANT Phases
INVARIANT IdentityPhase
