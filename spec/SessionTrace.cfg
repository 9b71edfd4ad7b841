CONSTANTS Threads = {1, 2}
 Fns = {"a", "b"}
 Vers = {1, 2}
 Seeds = {1, 2}
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
INVARIANT Verdicts
