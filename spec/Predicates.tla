----------------------------- MODULE Predicates -----------------------------
(* The checking predicates (C21): the answer is compared with the definition
   evaluated here on the very matrices given to the code.  Two tolerances bracket
   the fixed-point resolution; a request between them is illegal.  c.kind:
   "unitary":  c.rep
   "representation": c.ops (rotations), c.table, c.mu over c.muden for every pair, c.rep
   "spacegroup": c.ops <<R, t over c.Dt, 0>>, c.k over c.D, c.z signs, c.rep
   "cocycle": c.ops, c.mu over c.muden                                         *)
EXTENDS Cryst, Rep, Judge
VARIABLES ci, pc, s, amb, verdict
vars == <<ci, pc, s, amb, verdict>>
C == Cases[ci]
A == C.ans
n == IF C.kind \in {"unitary", "representation"} THEN C.rep.n ELSE Len(C.ops)
LO == 14*S
HI == 26*S
\* s: next row; amb: some row lies between the tolerances (legal only if another row is clearly broken)
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<ci, s, amb>> /\ Report(ci, C.id, v)
Judge_(b) == IF A.value = (IF b THEN 1 ELSE 0) THEN End("ok") ELSE End(IF b THEN "rejects-true" ELSE "accepts-false")
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ s = 1 /\ amb = FALSE /\ verdict = "none"
Entries(r, b) == \A i \in 1..r.n : \A q \in 1..(r.d[1]*r.d[2]) : Abs(r.re[i][q]) <= b /\ Abs(r.im[i][q]) <= b
Start == pc = "start" /\
  IF C.kind # "cocycle" /\ (~Shaped(C.rep, n) \/ ~Entries(C.rep, IF Dim(C.rep) <= 3 THEN 2*S ELSE S + S \div 2) \/ Dim(C.rep) > 6) THEN End("BAD-shape")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE pc' = C.kind /\ UNCHANGED <<ci, s, amb, verdict>>

\* largest deviation of matrix i times matrix j from ph times matrix k
Larger(a, b) == IF a > b THEN a ELSE b
MulDev(r, i, j, k, ph) ==
  LET d == Dim(r)  dd == Idx(d)
      ar == r.re[i]  ai == r.im[i]  br == r.re[j]  bi == r.im[j]  kr == r.re[k]  ki == r.im[k] IN
  FoldLeft(LAMBDA w, a : FoldLeft(LAMBDA v, b :
     LET o == (a-1)*d
         x == FoldLeft(LAMBDA z, c : z + ar[o+c]*br[(c-1)*d+b] - ai[o+c]*bi[(c-1)*d+b], 0, dd) - (ph[1]*kr[o+b] - ph[2]*ki[o+b])
         y == FoldLeft(LAMBDA z, c : z + ai[o+c]*br[(c-1)*d+b] + ar[o+c]*bi[(c-1)*d+b], 0, dd) - (ph[1]*ki[o+b] + ph[2]*kr[o+b])
     IN Larger(v, Larger(Abs(x), Abs(y))), w, dd), 0, dd)
UniDev(r, i) ==
  LET d == Dim(r)  dd == Idx(d)  x == r.re[i]  y == r.im[i] IN
  FoldLeft(LAMBDA w, a : FoldLeft(LAMBDA v, b :
     LET p == FoldLeft(LAMBDA z, c : z + x[(a-1)*d+c]*x[(b-1)*d+c] + y[(a-1)*d+c]*y[(b-1)*d+c], 0, dd) - (IF a = b THEN S*S ELSE 0)
         q == FoldLeft(LAMBDA z, c : z + y[(a-1)*d+c]*x[(b-1)*d+c] - x[(a-1)*d+c]*y[(b-1)*d+c], 0, dd)
     IN Larger(v, Larger(Abs(p), Abs(q))), w, dd), 0, dd)
\* one row of requirements after another; m = the largest deviation in it
Row(m, last) ==
  IF m > HI THEN Judge_(FALSE)
  ELSE IF s = last THEN (IF amb \/ m > LO THEN End("BAD-ambiguous") ELSE Judge_(TRUE))
  ELSE s' = s + 1 /\ amb' = (amb \/ m > LO) /\ UNCHANGED <<ci, pc, verdict>>
UnitaryP == pc = "unitary" /\ \E m \in {UniDev(C.rep, s)} : Row(m, n)
Phase(m, den) == IF den = 1 THEN <<S, 0>> ELSE Cis(m, den)
RepP == pc = "representation" /\
  \E m \in { FoldLeft(LAMBDA w, j : Larger(w, MulDev(C.rep, s, j, C.table[s][j], Phase(C.mu[s][j], C.muden))), 0, Idx(n)) } : Row(m, n)

\* space groups: the product of rows s and j compared with every operation of that rotation
SGDev(i, j) ==
  LET L == C.ops  r == RMul(L[i][1], L[j][1])
      tt == [a \in 1..3 |-> L[i][2][a] + L[i][1][3*a-2]*L[j][2][1] + L[i][1][3*a-1]*L[j][2][2] + L[i][1][3*a]*L[j][2][3]] IN
  FoldLeft(LAMBDA w, x : IF L[x][1] # r THEN w
     ELSE LET e == -(C.k[1]*(tt[1] - L[x][2][1]) + C.k[2]*(tt[2] - L[x][2][2]) + C.k[3]*(tt[3] - L[x][2][3]))
              ph == Cis(e % (C.D * C.Dt), C.D * C.Dt)
          IN Larger(w, MulDev(C.rep, i, j, x, << C.z[i][j]*ph[1], C.z[i][j]*ph[2] >>)), 0, Idx(n))
SpaceGroup == pc = "spacegroup" /\
  \E m \in { FoldLeft(LAMBDA w, j : Larger(w, SGDev(s, j)), 0, Idx(n)) } : Row(m, n)

(* cocycles: exact arithmetic on exponents.  Not a group: false. *)
CRots == { C.ops[q][1] : q \in 1..n }
Group == Cardinality(CRots) = n /\ \A i \in 1..n : \A j \in 1..n : RMul(C.ops[i][1], C.ops[j][1]) \in CRots
IndexOf(r) == CHOOSE x \in 1..n : C.ops[x][1] = r
CocycleHolds(tb) == \A i \in 1..n : \A j \in 1..n : \A k \in 1..n :
   (C.mu[i][j] + C.mu[tb[i][j]][k] - C.mu[i][tb[j][k]] - C.mu[j][k]) % C.muden = 0
Cocycle == pc = "cocycle" /\
  IF ~Group THEN Judge_(FALSE)
  ELSE \E tb \in { [i \in 1..n |-> [j \in 1..n |-> IndexOf(RMul(C.ops[i][1], C.ops[j][1]))]] } : Judge_(CocycleHolds(tb))
Next == Start \/ UnitaryP \/ RepP \/ SpaceGroup \/ Cocycle
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
============================================================================
