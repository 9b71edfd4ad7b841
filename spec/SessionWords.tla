---------------------------- MODULE SessionWords ----------------------------
(* Every history of the contract with at most Calls calls of two functions on
   two threads, and at most one move of each kind by the caller between or during
   them, that ends with a call; printed, and replayed into the library.       *)
EXTENDS Session, TLC, Json
CONSTANT Calls, Moves
VARIABLES hist, told
vars == <<val, rng, busy, out, hist, told>>
N(e) == Len(SelectSeq(hist, LAMBDA x : x.ev = e))
NMoves == N("overwrite") + N("set") + N("seed")
Ev(x) == told /\ hist' = Append(hist, x) /\ told' = FALSE
Init == SInit /\ rng = (CHOOSE s \in Seeds : \A u \in Seeds : s <= u) /\ hist = <<>> /\ told = FALSE
Move(e) == N("begin") > 0 /\ N("begin") + (IF \E t \in Threads : busy[t] # Idle THEN 1 ELSE 0) <= Calls /\ N(e) = 0 /\ NMoves < Moves /\ hist[Len(hist)].ev # "overwrite"
\* threads and functions are interchangeable: the first call is the function a on thread 1
HBegin(t, f) == /\ N("begin") < Calls
                /\ (N("begin") = 0 => t = 1 /\ f = "a")
                /\ Begin(t, f)
                /\ Ev([ev |-> "begin", t |-> t, f |-> f])
HEnd(t) == End(t) /\ Ev([ev |-> "end", t |-> t])
HOver == Move("overwrite") /\ Overwrite /\ Ev([ev |-> "overwrite"])
HSet(v) == Move("set") /\ SetArg(v) /\ Ev([ev |-> "set", v |-> v])
HSeed(s) == Move("seed") /\ Seed(s) /\ Ev([ev |-> "seed", s |-> s])
AllIdle == \A t \in Threads : busy[t] = Idle
Tell == ~told /\ (IF AllIdle /\ N("begin") >= 2 /\ hist[Len(hist)].ev = "end" THEN PrintT("B|" \o ToJson([hist |-> hist])) ELSE TRUE)
        /\ told' = TRUE /\ UNCHANGED <<svars, hist>>
Next == Tell \/ (\E t \in Threads : (\E f \in Fns : HBegin(t, f)) \/ HEnd(t)) \/ HOver \/ (\E v \in Vers : HSet(v)) \/ (\E s \in Seeds : HSeed(s))
Spec == Init /\ [][Next]_vars
\* every printed history is a history of the contract
IsContract == Contract
============================================================================
