CONSTANTS Threads = {1, 2}
 Fns = {"a", "b"}
 Vers = {1, 2}
 Seeds = {1, 2}
 Calls = 3
 Moves = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
PROPERTY IsContract
