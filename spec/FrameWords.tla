----------------------------- MODULE FrameWords -----------------------------
(* The sequences of changes of description which are replayed into the code:
   every word of at most MaxLen letters, where a letter may be repeated only
   if doing it twice is not the same as doing it once.                       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT MaxLen
Letters == {"reorder", "basis", "origin", "represent", "shiftk", "arm", "conjugate", "method", "rotate"}
Once == {"method", "conjugate", "rotate", "reorder", "shiftk"}
VARIABLES w, told
Init == w = <<>> /\ told = FALSE
Extend(l) == told /\ Len(w) < MaxLen /\ (Len(w) > 0 /\ l \in Once => w[Len(w)] # l) /\ w' = Append(w, l) /\ told' = FALSE
Tell == ~told /\ PrintT("B|" \o ToJson([word |-> w])) /\ told' = TRUE /\ UNCHANGED w
Next == Tell \/ \E l \in Letters : Extend(l)
Spec == Init /\ [][Next]_<<w, told>>
\* nothing is replayed which changes nothing
NoStutter == \A i \in 1..Len(w)-1 : w[i] \in Once => w[i+1] # w[i]
============================================================================
