------------------------------ MODULE Session ------------------------------
(* Histories of calls on shared argument objects, on several threads.  This is
   the contract: a call is a function of the values its arguments had when it
   began; it changes neither arguments, nor results handed out before, nor the
   global random state.
     val    the version of the values in the caller's argument objects
     rng    the global random state (changed by the caller only)
     busy   thread -> <<function, version at the begin of the call>> or Idle
     out    results handed out: function, version, own = not overwritten      *)
EXTENDS Naturals, Sequences
CONSTANTS Threads, Fns, Vers, Seeds
Idle == <<>>
VARIABLES val, rng, busy, out
svars == <<val, rng, busy, out>>
SInit == val = (CHOOSE v \in Vers : \A u \in Vers : v <= u)
      /\ rng \in Seeds /\ busy = [t \in Threads |-> Idle] /\ out = <<>>
Begin(t, f) == busy[t] = Idle /\ busy' = [busy EXCEPT ![t] = <<f, val>>] /\ UNCHANGED <<val, rng, out>>
End(t) == /\ busy[t] # Idle
          /\ out' = Append(out, [f |-> busy[t][1], v |-> busy[t][2], own |-> TRUE])
          /\ busy' = [busy EXCEPT ![t] = Idle] /\ UNCHANGED <<val, rng>>
\* the caller scribbles over everything handed to it so far
Overwrite == /\ \E i \in 1..Len(out) : out[i].own
             /\ out' = [i \in 1..Len(out) |-> [out[i] EXCEPT !.own = FALSE]] /\ UNCHANGED <<val, rng, busy>>
\* the caller puts other values into its argument objects, between calls
SetArg(v) == v # val /\ (\A t \in Threads : busy[t] = Idle) /\ val' = v /\ UNCHANGED <<rng, busy, out>>
Seed(s) == s # rng /\ rng' = s /\ UNCHANGED <<val, busy, out>>
SNext == \/ \E t \in Threads : (\E f \in Fns : Begin(t, f)) \/ End(t)
         \/ Overwrite \/ (\E v \in Vers : SetArg(v)) \/ (\E s \in Seeds : Seed(s))
Contract == SInit /\ [][SNext]_svars
============================================================================
