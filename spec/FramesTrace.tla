---------------------------- MODULE FramesTrace ----------------------------
(* Trace validation for Frames.  A case is one history of calls: the first
   description with its answer, then a sequence of changes, each followed by a
   call.  The machine performs every change on its own description, requires
   the logged request to be that description, and requires the answer to be
   what the first answer becomes under the accumulated change.
   c.ops, c.k, c.Dk, c.Dt, c.first = answer
   c.steps[i] : act, parameters; ops, k the request; byCode = 1 if the request
     was computed by the library itself (transform_symmetry_and_kpoint);
     seen = operations handed back by a structure-level call (or <<>>);
     V = SU(2) matrix relating the Cartesian frames, up to sign; ans
   answer : status, map (1-based), chi = sequence of [re, im] (traces, scale S/4),
     U (spinor matrices or n = 0)                                            *)
EXTENDS Frames, Rep, Judge

VARIABLES ci, pc, i, d, verdict
vars == <<ci, pc, i, d, verdict>>
C == Cases[ci]
St == C.steps[i]
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<ci, i, d>> /\ Report(ci, C.id, v)
N == C.Dk * C.Dt

Init == ci \in 1..Len(Cases) /\ pc = "start" /\ i = 0 /\ verdict = "none" /\ d = First(Cases[ci].ops, Cases[ci].k)

ShapeOK(a, n) == /\ Len(a.chi) >= 1
                 /\ \A r \in 1..Len(a.chi) : Len(a.chi[r].re) = n /\ Len(a.chi[r].im) = n
                      /\ \A q \in 1..n : Abs(a.chi[r].re[q]) <= 16*2048 /\ Abs(a.chi[r].im[q]) <= 16*2048
                 /\ (C.spin => Shaped(a.U, n) /\ Dim(a.U) = 2 /\ Bounded(a.U))
Start == pc = "start" /\
  IF C.first.status # "ok" THEN End("first-call-answers")
  ELSE IF C.firstseen = <<>> /\ C.first.map # LittleGroup(C.ops, C.k, C.Dk) THEN End("first-little-group")
  ELSE IF ~ShapeOK(C.first, Len(C.first.map)) THEN End("first-shape")
  ELSE pc' = "step" /\ i' = 1 /\ UNCHANGED <<ci, d, verdict>>

Apply(s) ==
  IF s.act = "reorder" THEN Reorder(d, s.p)
  ELSE IF s.act = "basis" THEN Basis(d, s.U, s.W)
  ELSE IF s.act = "origin" THEN Origin(d, s.p)
  ELSE IF s.act = "represent" THEN Represent(d, s.v, C.Dk, C.Dt)
  ELSE IF s.act = "shiftk" THEN ShiftK(d, s.p, C.Dk)
  ELSE IF s.act = "arm" THEN Arm(d, s.g, s.W, C.Dk, C.Dt)
  ELSE IF s.act = "conjugate" THEN Conjugate(d, C.Dk, C.Dt)
  ELSE d                                               \* method, rotate
Legal(s) ==
  /\ s.act = "reorder" => {s.p[q] : q \in 1..Len(s.p)} = 1..Len(d.ops) /\ Len(s.p) = Len(d.ops)
  /\ s.act = "basis" => RMul(s.U, s.W) = E9
  /\ s.act = "arm" => RMul(d.ops[s.g][1], s.W) = E9
  /\ s.act = "represent" => Len(s.v) = Len(d.ops)
Change == pc = "step" /\
  IF i > Len(C.steps) THEN End("ok")
  ELSE IF ~Legal(St) THEN End("BAD-step")
  ELSE d' = Apply(St) /\ pc' = "request" /\ UNCHANGED <<ci, i, verdict>>

\* operations as seen by the caller of a structure-level entry point: same group, own order and representatives
Seen(ops, s, j) == IF s = <<>> THEN j ELSE CHOOSE q \in 1..Len(s) : OpEqv(ops[j], s[q], C.Dt)
SeenOK(ops, s) == s = <<>> \/ (Len(s) = Len(ops) /\ \A j \in 1..Len(ops) : Cardinality({q \in 1..Len(s) : OpEqv(ops[j], s[q], C.Dt)}) = 1)
\* phase numerator of the representative handed back relative to the one described
SeenPh(dd, s, j) == IF s = <<>> THEN 0 ELSE Dot3(dd.k, V3Sub(s[Seen(dd.ops, s, j)][2], dd.ops[j][2]))
Request == pc = "request" /\
  IF ~(St.ops = d.ops /\ St.k = d.k) THEN End(IF St.byCode THEN "transform" ELSE "BAD-request")
  ELSE IF ~LittleOK(C.ops, C.k, d, C.Dk) THEN End("BAD-little")
  ELSE IF ~SeenOK(C.ops, C.firstseen) \/ ~SeenOK(d.ops, St.seen) THEN End("operations")
  ELSE pc' = "answer" /\ UNCHANGED <<ci, i, d, verdict>>

\* positions in a sequence
Pos(m, x) == CHOOSE q \in 1..Len(m) : m[q] = x
\* the table of one comparison: for every unitary operation of the first little group
\*  <<position in the first answer, position in the current one, cos, sin>> (the spin sign included)
SignOf(p, q) ==
  IF ~C.spin THEN 1
  ELSE LET a == C.first.U  b == St.ans.U
           \* V U_first V^-1 at scale S, first row
           V == St.V
           m1(r, c) == (V.re[2*r-1]*a.re[p][c] - V.im[2*r-1]*a.im[p][c] + V.re[2*r]*a.re[p][2+c] - V.im[2*r]*a.im[p][2+c]) \div S
           n1(r, c) == (V.re[2*r-1]*a.im[p][c] + V.im[2*r-1]*a.re[p][c] + V.re[2*r]*a.im[p][2+c] + V.im[2*r]*a.re[p][2+c]) \div S
           \* times conj(transpose(V))
           re(r, c) == (m1(r,1)*V.re[2*c-1] + n1(r,1)*V.im[2*c-1] + m1(r,2)*V.re[2*c] + n1(r,2)*V.im[2*c]) \div S
           im(r, c) == (n1(r,1)*V.re[2*c-1] - m1(r,1)*V.im[2*c-1] + n1(r,2)*V.re[2*c] - m1(r,2)*V.im[2*c]) \div S
           is(s) == \A r \in 1..2 : \A c \in 1..2 : Near(re(r,c), s*b.re[q][2*(r-1)+c], 48) /\ Near(im(r,c), s*b.im[q][2*(r-1)+c], 48)
       IN IF is(1) THEN 1 ELSE IF is(-1) THEN -1 ELSE 0
Table ==
  LET lg == SelectSeq(LittleGroup(C.ops, C.k, C.Dk), LAMBDA h : C.ops[h][3] = 0) IN
  [x \in 1..Len(lg) |->
     LET h == lg[x]
         p == Pos(C.first.map, Seen(C.ops, C.firstseen, h))
         q == Pos(St.ans.map, Seen(d.ops, St.seen, d.at[h]))
         f0 == SeenPh([ops |-> C.ops, k |-> C.k], C.firstseen, h)
         ph == d.ph[h] + SeenPh(d, St.seen, d.at[h]) - (IF d.cj THEN -f0 ELSE f0)
         sg == SignOf(p, q)
         cs == Cis(-ph, N)
     IN << p, q, sg*cs[1], sg*cs[2] >>]
CTOL == 24*S
Same(T, a, b) ==   \* character a of the first answer becomes character b of the current one
  LET sc == IF d.cj THEN -1 ELSE 1 IN
  \A x \in 1..Len(T) : LET e == T[x]  ar == a.re[e[1]]  ai == sc*a.im[e[1]] IN
     /\ Near(e[3]*ar - e[4]*ai, S*b.re[e[2]], CTOL)
     /\ Near(e[3]*ai + e[4]*ar, S*b.im[e[2]], CTOL)
LittleNow == { Seen(d.ops, St.seen, j) : j \in {q \in 1..Len(d.ops) : Stabilises(d.ops[q], d.k, C.Dk)} }
LittleFirst == { Seen(C.ops, C.firstseen, j) : j \in {q \in 1..Len(C.ops) : Stabilises(C.ops[q], C.k, C.Dk)} }
SetOf(m) == {m[q] : q \in 1..Len(m)}
Answer == pc = "answer" /\
  LET B == St.ans IN
  IF B.status # "ok" THEN End("answers")
  ELSE IF SetOf(B.map) # LittleNow \/ Len(B.map) # Cardinality(LittleNow) THEN End("little-groups-correspond")
  ELSE IF SetOf(C.first.map) # LittleFirst THEN End("first-little-group")
  ELSE IF ~ShapeOK(B, Len(B.map)) THEN End("shape")
  ELSE IF Len(B.chi) # Len(C.first.chi) THEN End("number-of-irreps")
  ELSE \E T \in {Table} :
    IF \E x \in 1..Len(T) : T[x][3] = 0 /\ T[x][4] = 0 THEN End("spin-frame")
    ELSE \E M \in {[r \in 1..Len(B.chi) |-> {s \in 1..Len(B.chi) : Same(T, C.first.chi[r], B.chi[s])}]} :
      IF \A r \in 1..Len(B.chi) : Cardinality(M[r]) = 1
      THEN IF UNION {M[r] : r \in 1..Len(B.chi)} = 1..Len(B.chi)
           THEN i' = i + 1 /\ pc' = "step" /\ UNCHANGED <<ci, d, verdict>>
           ELSE End("characters-bijective")
      ELSE End("characters-" \o St.act)
Next == Start \/ Change \/ Request \/ Answer
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
============================================================================
