-------------------------------- MODULE Retry --------------------------------
(* Trace validation of randomised searches.  A recorded execution is the list of
   its searches (one per random generator), each the list of the draws it consumed
   ("good" separates everything, "none"/"some" do not); the draws were scheduled
   from behaviours of RetryModel.  Every trial is replayed as a step:
     - a search stops at its first good draw;
     - it performs at most c.max trials;
     - an empty answer needs a search all of whose c.max draws were bad, and a warning.
   A search may accept a bad draw (the content of a non-empty answer is judged by
   the specification of its function: SmallReps, RealReps, Projection, Intertwine).
   c.max, c.parts ; c.ans : status, empty, warned, broken.
   c.kind = "error": an invalid request must raise ValueError.
   c.kind = "chain": a group table (c.table) and a chain of generators (c.chain)
   which does not reach the whole group: nothing is returned, and it is signalled.
   c.kind = "limit": one call with limits 1, 2, 3 (c.runs), no draw ever being good:
   if all of them find nothing, each further trial allowed is one further trial made.
   c.kind = "nongroup": operations <<R, th>> (c.ops) which are not closed under
   multiplication: the call raises, it never returns a table or representations.  *)
EXTENDS Judge, Cryst
VARIABLES ci, pc, part, n, exhausted, verdict
vars == <<ci, pc, part, n, exhausted, verdict>>
C == Cases[ci]
A == C.ans
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<ci, part, n, exhausted>> /\ Report(ci, C.id, v)
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ part = 1 /\ n = 0 /\ exhausted = FALSE /\ verdict = "none"
RECURSIVE Reached(_, _)
Reached(seen, front) == IF front = {} THEN seen
  ELSE LET nxt == { C.table[g][x] : g \in {C.chain[q] : q \in 1..Len(C.chain)}, x \in front } \ seen IN Reached(seen \cup nxt, nxt)
Insufficient == /\ \A q \in 1..Len(C.chain) : C.chain[q] \in 1..Len(C.table)
                /\ \E e \in 1..Len(C.table) : (\A x \in 1..Len(C.table) : C.table[e][x] = x) /\ Cardinality(Reached({e}, {e})) < Len(C.table)
NotClosed == /\ Len(C.ops) > 0
             /\ \E i, j \in 1..Len(C.ops) : \A l \in 1..Len(C.ops) :
                   <<RMul(C.ops[i][1], C.ops[j][1]), (C.ops[i][2] + C.ops[j][2]) % 2>> # <<C.ops[l][1], C.ops[l][2]>>
Start == pc = "start" /\
  IF C.kind = "nongroup" THEN
    IF ~NotClosed THEN End("BAD-nongroup") ELSE IF A.status = "ok" THEN End("accepts-nongroup") ELSE End("ok")
  ELSE IF C.kind = "limit" THEN
    IF \E r \in 1..Len(C.runs) : C.runs[r].status # "ok" THEN End("answers")
    ELSE IF \E r \in 1..Len(C.runs) : C.runs[r].empty /\ ~C.runs[r].warned THEN End("silent-failure")
    ELSE IF (\A r \in 1..Len(C.runs) : C.runs[r].empty /\ C.runs[r].calls > 0) /\ (\E r \in 2..Len(C.runs) : C.runs[r].calls # r * C.runs[1].calls)
      THEN End("limit-ignored") ELSE End("ok")
  ELSE IF C.kind = "chain" THEN
    IF ~Insufficient THEN End("BAD-chain")
    ELSE IF A.status = "raises:ValueError" THEN End("ok")
    ELSE IF A.status # "ok" THEN End("answers")
    ELSE IF ~A.empty THEN End("partial-result")
    ELSE IF ~A.warned THEN End("silent-failure") ELSE End("ok")
  ELSE IF C.kind = "error" THEN End(IF A.status = "raises:ValueError" THEN "ok" ELSE "rejects")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE IF A.broken THEN End("not-finite")
  ELSE pc' = "search" /\ UNCHANGED <<ci, part, n, exhausted, verdict>>
P == C.parts[part]
Trial == pc = "search" /\ part <= Len(C.parts) /\ n < Len(P) /\
  IF n = C.max THEN End("too-many-draws")
  ELSE IF n > 0 /\ P[n] = "good" THEN End("good-draw-not-used")
  ELSE n' = n + 1 /\ UNCHANGED <<ci, pc, part, exhausted, verdict>>
EndOfSearch == pc = "search" /\ part <= Len(C.parts) /\ n = Len(P) /\
  part' = part + 1 /\ n' = 0 /\ exhausted' = (exhausted \/ (n = C.max /\ (n = 0 \/ P[n] # "good"))) /\ UNCHANGED <<ci, pc, verdict>>
Answer == pc = "search" /\ part > Len(C.parts) /\
  IF A.empty /\ C.max > 0 /\ ~exhausted THEN End("gave-up-early")
  ELSE IF A.empty /\ ~A.warned THEN End("silent-failure") ELSE End("ok")
Next == Start \/ Trial \/ EndOfSearch \/ Answer
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
=============================================================================
