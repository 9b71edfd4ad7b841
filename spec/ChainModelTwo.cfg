CONSTANTS Pick = "two"
 Tell = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Setting
INVARIANT Subgroup
INVARIANT Law
INVARIANT Orthogonal
INVARIANT Complete
INVARIANT Divides
