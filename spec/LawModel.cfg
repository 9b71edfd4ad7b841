CONSTANTS Dt = 12
 Dk = 12
 Grid = {0, 3, 4, 6, 7}
 Shifts = {1, 2}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Closed
INVARIANT Associative
INVARIANT Cocycle
INVARIANT Halved
INVARIANT Squares
INVARIANT Translations
