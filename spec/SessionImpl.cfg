CONSTANTS Threads = {1, 2}
 Fns = {"a", "b"}
 Vers = {1, 2}
 Seeds = {1, 2}
 MaxOut = 3
 MaxMoves = 3
 Fault = "none"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Functional
INVARIANT ArgsIntact
PROPERTY Refines
