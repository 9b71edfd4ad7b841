CONSTANT MaxLen = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NoStutter
