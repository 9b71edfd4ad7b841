----------------------------- MODULE RetryModel -----------------------------
(* Randomised search with a bounded number of retries, as the library performs
   it: every trial draws a random matrix that separates everything ("good"),
   nothing ("none") or only part of what is searched ("some").  Only a good draw
   may be turned into a result; after MaxTrials bad draws the search gives up with
   a warning.  A nested search (irreps by induction, real forms,
   co-representations) needs all its Parts searches; one failure empties the
   whole.  Every complete behaviour is printed and replayed into the code.    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Limit, Parts
Draws == {"good", "none", "some"}
VARIABLES max, part, n, hist, res, warned, held
vars == <<max, part, n, hist, res, warned, held>>
Init == max \in 0..Limit /\ part = 1 /\ n = 0 /\ hist = <<>> /\ res = "search" /\ warned = FALSE /\ held = 0
Trial(d) == res = "search" /\ n < max /\ hist' = Append(hist, d) /\
   IF d = "good"
   THEN IF part = Parts THEN res' = "complete" /\ held' = held + 1 /\ n' = n + 1 /\ UNCHANGED <<max, part, warned>>
        ELSE part' = part + 1 /\ n' = 0 /\ held' = held + 1 /\ UNCHANGED <<max, res, warned>>
   ELSE n' = n + 1 /\ UNCHANGED <<max, part, res, warned, held>>
\* what an earlier part found is dropped with the failure of a later one
GiveUp == res = "search" /\ n = max /\ res' = "empty" /\ warned' = TRUE /\ held' = 0 /\ UNCHANGED <<max, part, n, hist>>
Done == res # "search" /\ PrintT("B|" \o ToJson([max |-> max, draws |-> hist, res |-> res])) /\ UNCHANGED vars
Next == (\E d \in Draws : Trial(d)) \/ GiveUp \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TypeOK == max \in 0..Limit /\ n \in 0..max /\ part \in 1..Parts /\ res \in {"search", "complete", "empty"}
\* a result is complete or empty with a warning, never a part of it
NeverPartial == res # "search" => held \in {0, Parts} /\ (res = "complete") = (held = Parts)
Signalled == res = "empty" => warned
Bounded == Len(hist) <= max * Parts
SucceedsWhenPossible == res = "empty" => ~\E i \in 1..Len(hist) : Parts = 1 /\ hist[i] = "good"
Terminates == <>(res # "search")
============================================================================
