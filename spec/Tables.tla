----------------------------- MODULE Tables -----------------------------
(* Group bookkeeping (C16, C06): multiplication tables, identity, inverses,
   orders, closure, coset pairing by time reversal, chains of generators,
   regular representations.  A case c:
     c.kind in {"table", "ismg", "xsg", "chain", "regular"}
     c.ops  = <<R, t, th>> ...  (t over c.Dt)
     c.mul  = certificate of the multiplication table (rotation and time-reversal parts)
     c.ans  = the observation                                               *)
EXTENDS Cryst, Judge
VARIABLES ci, pc, sub, step, verdict
vars == <<ci, pc, sub, step, verdict>>
C == Cases[ci]
A == C.ans
n == Len(C.ops)

Op(i) == C.ops[i]
PtMul(x, y) == << RMul(x[1], y[1]), (x[3] + y[3]) % 2 >>
PtOf(x) == << x[1], x[3] >>
PtSet == { PtOf(Op(i)) : i \in 1..n }
Closed == LET P == PtSet IN \A i \in 1..n : \A j \in 1..n : PtMul(Op(i), Op(j)) \in P
\* certified table: C.mul
CertOK == LET L == C.ops IN
  /\ Len(C.mul) = n
  /\ \A i \in 1..n : Len(C.mul[i]) = n /\ \A j \in 1..n :
              C.mul[i][j] \in 1..n /\ PtMul(L[i], L[j]) = PtOf(L[C.mul[i][j]])
  /\ Cardinality(PtSet) = n
Ident == CHOOSE e \in 1..n : Op(e)[1] = E9 /\ Op(e)[3] = 0
Mul == C.mul

End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<ci, sub, step>> /\ Report(ci, C.id, v)
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ sub = {} /\ step = 0 /\ verdict = "none"

Start == pc = "start" /\
  IF C.kind = "ismg" THEN
       IF A.status # "ok" THEN End("ismg-answers")
       ELSE IF A.value # (IF Closed /\ Cardinality(PtSet) = n THEN 1 ELSE 0) THEN End("is-matrix-group") ELSE End("ok")
  ELSE IF C.kind = "xsg" THEN pc' = "xsg" /\ UNCHANGED <<ci, sub, step, verdict>>
  ELSE IF ~CertOK THEN End("BAD-table")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE pc' = C.kind /\ UNCHANGED <<ci, sub, step, verdict>>

Table == pc = "table" /\
  IF A.table # Mul THEN End("table")
  ELSE IF A.identity # Ident THEN End("identity")
  ELSE IF Len(A.inverse) # n \/ Len(A.order) # n THEN End("shape")
  ELSE IF \E i \in 1..n : ~(A.inverse[i] \in 1..n) THEN End("inverse")
  ELSE IF \E i \in 1..n : Mul[i][A.inverse[i]] # Ident THEN End("inverse")
  ELSE pc' = "orders" /\ step' = 1 /\ UNCHANGED <<ci, sub, verdict>>
\* one element at a time: walk its powers back to the identity
RECURSIVE OrderFrom(_, _, _)
OrderFrom(i, x, k) == IF x = Ident THEN k ELSE OrderFrom(i, Mul[x][i], k + 1)
Orders == pc = "orders" /\
  IF step > n THEN End("ok")
  ELSE IF A.order[step] # OrderFrom(step, step, 1) THEN End("order")
  ELSE step' = step + 1 /\ UNCHANGED <<ci, pc, sub, verdict>>

\* a chain of generators is absorbed from the last to the first
Powers(g) == LET RECURSIVE P(_, _)
                 P(x, acc) == IF x = Ident THEN acc ELSE P(Mul[x][g], acc \cup {x})
             IN P(g, {Ident})
Chain == pc = "chain" /\
  IF \E q \in 1..Len(A.gens) : ~(A.gens[q] \in 1..n) THEN End("chain-index")
  ELSE pc' = "absorb" /\ sub' = {Ident} /\ step' = Len(A.gens) /\ UNCHANGED <<ci, verdict>>
Absorb == pc = "absorb" /\
  IF step = 0 THEN IF sub = 1..n THEN End("ok") ELSE End("chain-generates")
  ELSE LET g == A.gens[step]  pw == Powers(g) IN
       IF {Mul[g][h] : h \in sub} # {Mul[h][g] : h \in sub} THEN End("chain-normalises")
       ELSE LET new == {Mul[p][h] : p \in pw, h \in sub} IN
            IF Cardinality(new) # Cardinality(pw) * Cardinality(sub) THEN End("chain-factor")
            ELSE sub' = new /\ step' = step - 1 /\ UNCHANGED <<ci, pc, verdict>>

\* regular representation: nz = non-zero entries <<k, i, j, re, im>>
Mu(k, j) == IF Len(C.mu) = 0 THEN <<S, 0>> ELSE Cis(C.mu[k][j], C.muden)
Regular == pc = "regular" /\
  IF A.shape # <<n, n, n>> THEN End("regular-shape")
  ELSE IF Len(A.nz) # n * n THEN End("regular-nonzeros")
  ELSE IF \E q \in 1..Len(A.nz) : LET e == A.nz[q]  m == Mu(e[1], e[3]) IN
            Mul[e[1]][e[3]] # e[2] \/ ~Near(e[4], m[1], 4) \/ ~Near(e[5], m[2], 4)
       THEN End("regular-entry")
  ELSE End("ok")

\* coset decomposition by the time-preserving operations
Uni == SelectSeq(Idx(n), LAMBDA i : Op(i)[3] = 0)
Xsg == pc = "xsg" /\
  LET hasT == \E i \in 1..n : Op(i)[3] = 1 IN
  IF A.status # "ok" THEN End("xsg-answers")
  ELSE IF A.none = 1 THEN IF hasT THEN End("xsg-none") ELSE End("ok")
  ELSE IF ~hasT THEN End("xsg-not-none")
  ELSE IF A.xsg # Uni THEN End("xsg-indices")
  ELSE IF ~(A.a0 \in 1..n) \/ Op(A.a0)[3] # 1 THEN End("xsg-representative")
  ELSE IF Len(A.tri) # Len(Uni) THEN End("xsg-pairs-length")
  ELSE IF \E q \in 1..Len(Uni) : ~(A.tri[q] \in 1..n) \/ ~OpEqv(OpMul(Op(Uni[q]), Op(A.a0)), Op(A.tri[q]), C.Dt) THEN End("xsg-pairs")
  ELSE End("ok")
Next == Start \/ Table \/ Orders \/ Chain \/ Absorb \/ Regular \/ Xsg
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
=========================================================================
