SPECIFICATION Spec
CONSTANTS Limit = 3  Parts = 4
INVARIANTS TypeOK NeverPartial Signalled Bounded SucceedsWhenPossible
PROPERTY Terminates
