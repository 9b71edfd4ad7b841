---------------------------- MODULE SessionTrace ----------------------------
(* Trace validation for Session: recorded histories of real calls.  Every event
   is an action of the contract; the state observed after it (argument objects,
   global random state, every result handed out before) must be the state of
   the contract, and a finished call must hand out the value which the function
   gives for these arguments in a fresh process.
     c.ref[f][v]   = signature of the fresh answer, arguments given in the same form:
                     [status, form, num, inv] (num: projections of all numbers, inv:
                     numbers which equivalent matrices share)
     c.plain[f][v] = the same for arguments given as the caller's plain arrays
     c.strict      = 1: floating point is reproducible bit by bit
     c.args[v]     = digest of the argument objects holding version v
     c.rngs[s]     = digest of the global random state after seeding with s
     c.settings[f] = names of process-wide settings of the caller (error handling, print
                     options, warning filters, directory, environment) which differ
                     after a call: none may
     c.ev[i]       : ev, t, f, v, s; after it: args, rng (digests), outs = signatures
                     of all results so far (as they are now); end: res             *)
EXTENDS Session, Judge
VARIABLES ci, pc, i, verdict
vars == <<val, rng, busy, out, ci, pc, i, verdict>>
C == Cases[ci]
E == C.ev[i]
TEnd(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<val, rng, busy, out, ci, i>> /\ Report(ci, C.id, v)
Init == /\ ci \in 1..Len(Cases) /\ pc = "act" /\ i = 1 /\ verdict = "none"
        /\ val = 1 /\ rng = 1 /\ busy = [t \in 1..2 |-> Idle] /\ out = <<>>
Is(e) == pc = "act" /\ i <= Len(C.ev) /\ E.ev = e /\ pc' = "observe" /\ UNCHANGED <<ci, i, verdict>>
TBegin == Is("begin") /\ Begin(E.t, E.f)
TFinish == Is("end") /\ End(E.t)
TOver == Is("overwrite") /\ Overwrite
TSet == Is("set") /\ SetArg(E.v)
TSeed == Is("seed") /\ Seed(E.s)
Stuck == pc = "act" /\ i > Len(C.ev) /\ TEnd("ok")
\* an event which is no action of the contract: the driver, not the library, is wrong
Illegal == pc = "act" /\ i <= Len(C.ev) /\
  ~(\/ (E.ev = "begin" /\ busy[E.t] = Idle)
    \/ (E.ev = "end" /\ busy[E.t] # Idle)
    \/ (E.ev = "seed" /\ E.s # rng)
    \/ (E.ev = "set" /\ E.v # val /\ (\A t \in 1..2 : busy[t] = Idle))
    \/ (E.ev = "overwrite" /\ \E j \in 1..Len(out) : out[j].own)) /\ TEnd("BAD-event")
CloseNum(x, y) == Len(x) = Len(y) /\ \A q \in 1..Len(x) : Near(x[q], y[q], 6 + Abs(y[q]) \div 10000)
Alike(x, y) == x.status = y.status /\ x.form = y.form /\ CloseNum(x.inv, y.inv)
Close(x, y) == Alike(x, y) /\ (C.strict = 1 => CloseNum(x.num, y.num))
Ref(f, v) == C.ref[IF f = "a" THEN 1 ELSE 2][v]
Observe == pc = "observe" /\
  IF E.args # C.args[val] THEN TEnd(IF E.ev = "overwrite" THEN "result-aliases-argument" ELSE "argument-modified")
  ELSE IF E.rng # C.rngs[rng] THEN TEnd("global-random-state")
  ELSE IF E.ev = "end" /\ C.settings[IF out[Len(out)].f = "a" THEN 1 ELSE 2] # <<>> THEN TEnd("process-settings")
  ELSE IF Len(E.outs) # Len(out) THEN TEnd("BAD-outs")
  ELSE IF E.ev = "end" /\ ~Close(E.outs[Len(out)], Ref(out[Len(out)].f, out[Len(out)].v))
       THEN TEnd(IF E.outs[Len(out)].status = Ref(out[Len(out)].f, out[Len(out)].v).status THEN "result-depends-on-history" ELSE "outcome-depends-on-history")
  ELSE IF E.ev = "end" /\ ~Alike(Ref(out[Len(out)].f, out[Len(out)].v), C.plain[IF out[Len(out)].f = "a" THEN 1 ELSE 2][out[Len(out)].v]) THEN TEnd("result-depends-on-argument-type")
  ELSE IF \E j \in 1..Len(out) : out[j].own /\ ~Close(E.outs[j], Ref(out[j].f, out[j].v)) THEN TEnd("earlier-result-modified")
  ELSE pc' = "act" /\ i' = i + 1 /\ UNCHANGED <<val, rng, busy, out, ci, verdict>>
TNext == TBegin \/ TFinish \/ TOver \/ TSet \/ TSeed \/ Stuck \/ Illegal \/ Observe
TSpec == Init /\ [][TNext]_vars
Verdicts == pc = "end" => verdict # "none"
============================================================================
