SPECIFICATION Spec
CONSTANTS Limit = 3  Parts = 1
INVARIANTS TypeOK NeverPartial Signalled Bounded SucceedsWhenPossible
PROPERTY Terminates
