SPECIFICATION Spec
CONSTANTS Limit = 2  Parts = 3
INVARIANTS TypeOK NeverPartial Signalled Bounded SucceedsWhenPossible
PROPERTY Terminates
