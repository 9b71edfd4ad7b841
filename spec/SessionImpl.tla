----------------------------- MODULE SessionImpl -----------------------------
(* How the library meets the contract, and what would break it.  A call copies
   what it needs, draws from a generator of its own, works in its own memory and
   returns fresh arrays.  Memory is a set of cells; arguments, module tables,
   working memory and results are cells.  Fault selects a design error:
     "inplace"   normalises its argument instead of a copy
     "alias"     returns the module table itself
     "global"    draws from the global random state
     "memo"      remembers the result of the last call by the identity of the argument
     "scratch"   works in memory shared between the threads
   SessionImpl.cfg (Fault = "none") refines Session; each fault is rejected
   (SessionFaults in the self-test).                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Fns, Vers, Seeds, MaxOut, MaxMoves, Fault
VARIABLES arg,      \* content of the argument object: version, or 99 (junk)
          table,    \* content of the module table
          grng,     \* global random state
          pc, wf, w0,    \* per thread: control, function, version at the begin
          mem,      \* per thread working memory (or shared)
          memo,     \* remembered result
          outs,     \* results: [f, v, cell content, own]
          moves
vars == <<arg, table, grng, pc, wf, w0, mem, memo, outs, moves>>
None == <<>>
v1 == CHOOSE v \in Vers : \A u \in Vers : v <= u
f1 == CHOOSE f \in Fns : TRUE
Init == arg = v1 /\ table = 50 /\ grng \in Seeds /\ pc = [t \in Threads |-> "idle"] /\ wf = [t \in Threads |-> f1] /\ w0 = [t \in Threads |-> v1]
     /\ mem = [t \in Threads |-> <<>>] /\ memo = [f \in Fns |-> None] /\ outs = <<>> /\ moves = 0
Cell(t) == IF Fault = "scratch" THEN CHOOSE u \in Threads : TRUE ELSE t
Begin(t, f) == /\ pc[t] = "idle" /\ Len(outs) + Cardinality({u \in Threads : pc[u] # "idle"}) < MaxOut
               /\ pc' = [pc EXCEPT ![t] = "copy"] /\ wf' = [wf EXCEPT ![t] = f] /\ w0' = [w0 EXCEPT ![t] = arg]
               /\ UNCHANGED <<arg, table, grng, mem, memo, outs, moves>>
Copy(t) == /\ pc[t] = "copy" /\ mem' = [mem EXCEPT ![Cell(t)] = <<wf[t], arg, table>>] /\ pc' = [pc EXCEPT ![t] = "draw"]
           /\ arg' = IF Fault = "inplace" THEN 99 ELSE arg
           /\ UNCHANGED <<table, grng, wf, w0, memo, outs, moves>>
Draw(t) == /\ pc[t] = "draw"
           /\ IF Fault = "global"
              THEN /\ mem' = [mem EXCEPT ![Cell(t)] = Append(@, grng)]
                   /\ grng' = IF grng = CHOOSE s \in Seeds : TRUE THEN grng ELSE CHOOSE s \in Seeds : TRUE
              ELSE mem' = [mem EXCEPT ![Cell(t)] = Append(@, 0)] /\ grng' = grng
           /\ pc' = [pc EXCEPT ![t] = "return"] /\ UNCHANGED <<arg, table, wf, w0, memo, outs, moves>>
Return(t) == /\ pc[t] = "return"
             /\ LET m == mem[Cell(t)]
                    r == IF Fault = "memo" /\ memo[wf[t]] # None THEN memo[wf[t]] ELSE m
                IN /\ outs' = Append(outs, [f |-> wf[t], v |-> w0[t], r |-> r, own |-> TRUE])
                   /\ memo' = IF Fault = "memo" THEN [memo EXCEPT ![wf[t]] = r] ELSE memo
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<arg, table, grng, wf, w0, mem, moves>>
\* the caller
May == moves < MaxMoves /\ moves' = moves + 1
Overwrite == /\ May /\ \E i \in 1..Len(outs) : outs[i].own
             /\ outs' = [i \in 1..Len(outs) |-> [outs[i] EXCEPT !.own = FALSE]]
             /\ table' = IF Fault = "alias" THEN 99 ELSE table
             /\ UNCHANGED <<arg, grng, pc, wf, w0, mem, memo>>
SetArg(v) == /\ May /\ v # arg /\ \A t \in Threads : pc[t] = "idle"
             /\ arg' = v /\ UNCHANGED <<table, grng, pc, wf, w0, mem, memo, outs>>
Seed(s) == May /\ s # grng /\ grng' = s /\ UNCHANGED <<arg, table, pc, wf, w0, mem, memo, outs>>
Next == \/ \E t \in Threads : (\E f \in Fns : Begin(t, f)) \/ Copy(t) \/ Draw(t) \/ Return(t)
        \/ Overwrite \/ (\E v \in Vers : SetArg(v)) \/ (\E s \in Seeds : Seed(s))
Spec == Init /\ [][Next]_vars

\* every result is the function of the argument values at the begin of its call
Functional == \A i \in 1..Len(outs) : outs[i].r = <<outs[i].f, outs[i].v, 50, 0>>
ArgsIntact == arg \in Vers
\* refinement of the contract
C == INSTANCE Session WITH val <- arg, rng <- grng,
       busy <- [t \in Threads |-> IF pc[t] = "idle" THEN <<>> ELSE <<wf[t], w0[t]>>],
       out <- [i \in 1..Len(outs) |-> [f |-> outs[i].f, v |-> outs[i].v, own |-> outs[i].own]]
Refines == C!Contract
=============================================================================
