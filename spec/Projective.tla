--------------------------- MODULE Projective ---------------------------
(* Projective irreps of a finite group given by its multiplication table, for
   any normalised factor system (C23).
     "irreps"  c.table (full), c.mu exponents over c.muden (full), c.gens the chain
               of generators (<<>> if the function does not take one), c.dims the sorted
               dimensions of the exact model (ChainModel) for this chain, or <<>> ;
               A.irreps, A.ind (<<>> if the function returns none), A.fine
     "small"   c.ops little group, c.k : indicators returned with small representations
     "factor"  c.ops, c.k : A.f[i][j] = <<re, im>>
   The machine first decides whether the request is legal (a group, a cocycle, a
   normal series absorbed one generator at a time, each of prime index equal to
   its own order, so that induction and extension exhaust the irreps), then
   walks the clauses.                                                       *)
EXTENDS Cryst, Rep, Fine, Judge
VARIABLES ci, pc, sub, step, verdict
vars == <<ci, pc, sub, step, verdict>>
C == Cases[ci]
A == C.ans
n == IF C.kind = "irreps" THEN Len(C.table) ELSE Len(C.ops)
All == Idx(n)
T(a, b) == C.table[a][b]
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<ci, sub, step>> /\ Report(ci, C.id, v)
Goto(p) == pc' = p /\ UNCHANGED <<ci, sub, step, verdict>>
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ sub = {} /\ step = 0 /\ verdict = "none"
R == A.irreps
Start == pc = "start" /\ Goto(IF C.kind = "irreps" THEN "group" ELSE C.kind)

(* ---- legality of the request ---- *)
Ident == CHOOSE e \in 1..n : \A b \in 1..n : T(e, b) = b
Closed == \A a \in 1..n : Len(C.table[a]) = n /\ {C.table[a][b] : b \in 1..n} = 1..n
HasIdent == \E e \in 1..n : \A b \in 1..n : T(e, b) = b /\ T(b, e) = b
\* Light's test: associativity for a generating set suffices
RECURSIVE ReachT(_, _)
ReachT(seen, front) == IF front = {} THEN seen
  ELSE LET nxt == { T(C.rows[q], b) : q \in 1..Len(C.rows), b \in front } \ seen IN ReachT(seen \cup nxt, nxt)
Associative == \A q \in 1..Len(C.rows) : \A a \in 1..n : \A b \in 1..n : T(a, T(C.rows[q], b)) = T(T(a, C.rows[q]), b)
Normalised == \A e \in {Ident} : \A b \in 1..n : C.mu[e][b] % C.muden = 0 /\ C.mu[b][e] % C.muden = 0
Cocycle == \A q \in 1..Len(C.rows) : \A a \in 1..n : \A b \in 1..n : \E g \in {C.rows[q]} :
   (C.mu[a][b] + C.mu[g][T(a, b)] - C.mu[g][a] - C.mu[T(g, a)][b]) % C.muden = 0
Group == pc = "group" /\
  IF C.muden >= 32768 \/ ~Closed \/ ~HasIdent THEN End("BAD-table")
  ELSE IF ~Associative \/ ReachT({Ident}, {Ident}) # 1..n THEN End("BAD-group")
  ELSE IF ~Normalised \/ ~Cocycle THEN End("BAD-cocycle")
  ELSE IF Len(C.gens) = 0 THEN Goto("answer")
  ELSE pc' = "absorb" /\ sub' = {Ident} /\ step' = Len(C.gens) /\ UNCHANGED <<ci, verdict>>
Powers(g) == LET RECURSIVE P(_, _)
                 P(x, acc) == IF x \in acc THEN acc ELSE P(T(x, g), acc \cup {x})
             IN P(g, {Ident})
Prime(m) == m > 1 /\ \A q \in 2..(m-1) : m % q # 0
Absorb == pc = "absorb" /\
  IF step = 0 THEN IF sub = 1..n THEN Goto("answer") ELSE End("BAD-chain")
  ELSE \E g \in {C.gens[step]} : \E pw \in {Powers(g)} :
    IF ~Prime(Cardinality(pw)) \/ {T(g, x) : x \in sub} # {T(x, g) : x \in sub} THEN End("BAD-chain")
    ELSE \E new \in {{T(x, y) : x \in pw, y \in sub}} :
      IF Cardinality(new) # Cardinality(pw) * Cardinality(sub) THEN End("BAD-chain")
      ELSE sub' = new /\ step' = step - 1 /\ UNCHANGED <<ci, pc, verdict>>

(* ---- the answer ---- *)
Answer == pc = "answer" /\
  IF A.status # "ok" THEN End("answers")
  ELSE IF \E r \in 1..Len(R) : ~Shaped(R[r], n) THEN End("shape")
  ELSE IF \E r \in 1..Len(R) : ~Bounded(R[r]) \/ ~Unitary(R[r]) THEN End("unitary")
  ELSE Goto("law")
LawOK(r) == \A q \in 1..Len(C.rows) : \A b \in 1..n : \E a \in {C.rows[q]} :
   ProdIs(R[r], a, b, T(a, b), Cis(C.mu[a][b], C.muden), FALSE)
FineLegal(f) == f.q \in 1..Len(C.rows) /\ f.b \in 1..n /\ f.r \in 1..Len(R) /\ (24 * C.mu[C.rows[f.q]][f.b] - f.m * C.muden) % (24 * C.muden) = 0
FineOK(f) == \E a \in {C.rows[f.q]} : \E k \in {T(C.rows[f.q], f.b)} : \E fd \in {Dim(R[f.r])} :
   /\ WellFormed(f.x, fd) /\ WellFormed(f.y, fd) /\ WellFormed(f.z, fd)
   /\ SameAs(f.x, R[f.r].re[a], R[f.r].im[a]) /\ SameAs(f.y, R[f.r].re[f.b], R[f.r].im[f.b]) /\ SameAs(f.z, R[f.r].re[k], R[f.r].im[k])
   /\ FineUnitary(f.x, fd) /\ FineProd(f.x, f.y, f.z, f.m, 1, FALSE, fd)
Law == pc = "law" /\
  IF \E r \in 1..Len(R) : ~LawOK(r) THEN End("law")
  ELSE IF \E f \in 1..Len(A.fine) : ~FineLegal(A.fine[f]) THEN End("BAD-fine")
  ELSE IF \E f \in 1..Len(A.fine) : ~FineOK(A.fine[f]) THEN End("law-precise")
  ELSE Goto("complete")
ModelDims == Len(R) = Len(C.dims) /\ \A d \in {C.dims[r] : r \in 1..Len(R)} : Cardinality({r \in 1..Len(R) : Dim(R[r]) = d}) = Cardinality({r \in 1..Len(R) : C.dims[r] = d})
Complete == pc = "complete" /\ \E X \in {[r \in 1..Len(R) |-> Chi(R[r])]} :
  IF \E r \in 1..Len(X) : ~DotIs(X[r], X[r], All, 1) THEN End("irreducible")
  ELSE IF \E r \in 1..Len(X) : \E s \in 1..Len(X) : r < s /\ ~DotIs(X[r], X[s], All, 0) THEN End("inequivalent")
  ELSE IF SumSeq([r \in 1..Len(R) |-> Dim(R[r]) * Dim(R[r])]) # n THEN End("complete")
  ELSE IF Len(C.dims) > 0 /\ ~ModelDims THEN End("model-dimensions")
  ELSE IF Len(A.ind) = 0 THEN End("ok")
  ELSE Goto("indicator")

(* ---- Frobenius-Schur indicators handed out with complex irreps ---- *)
TrSq(r, g) == LET d == Dim(R[r])  dd == Idx(d)  x == R[r].re[g] IN LET y == R[r].im[g] IN
  << (FoldLeft(LAMBDA z, i : FoldLeft(LAMBDA w, j : w + x[(i-1)*d+j]*x[(j-1)*d+i] - y[(i-1)*d+j]*y[(j-1)*d+i], z, dd), 0, dd) + S \div 2) \div S,
     (FoldLeft(LAMBDA z, i : FoldLeft(LAMBDA w, j : w + x[(i-1)*d+j]*y[(j-1)*d+i] + y[(i-1)*d+j]*x[(j-1)*d+i], z, dd), 0, dd) + S \div 2) \div S >>
FSSum(r) == FoldLeft(LAMBDA z, g : << z[1] + TrSq(r, g)[1], z[2] + TrSq(r, g)[2] >>, <<0, 0>>, All)
FSIs(r, v) == \E t \in {FSSum(r)} : Near(t[1], v*n*S, (n*S) \div 8) /\ Near(t[2], 0, (n*S) \div 8)
\* multipliers +1 and -1 only, and 2k a reciprocal vector
Signs == IF C.kind = "small" THEN V3Mod0(<<2*C.k[1], 2*C.k[2], 2*C.k[3]>>, C.Dk)
         ELSE \A a \in 1..n : \A b \in 1..n : (2 * C.mu[a][b]) % C.muden = 0
IndOK == IF Len(A.ind) # Len(R) THEN FALSE
  ELSE \E sg \in {Signs} : \A r \in 1..Len(R) : A.ind[r] \in {-1, 0, 1} /\ IF sg THEN FSIs(r, A.ind[r]) ELSE A.ind[r] = 0
Indicator == pc = "indicator" /\ IF ~IndOK THEN End("indicator") ELSE End("ok")
Small == pc = "small" /\
  IF A.status # "ok" THEN End("answers")
  ELSE IF \E a \in 1..n : ~Stabilises(C.ops[a], C.k, C.Dk) THEN End("BAD-little")
  ELSE IF \E r \in 1..Len(R) : ~Shaped(R[r], n) \/ ~Bounded(R[r]) THEN End("shape")
  ELSE IF ~IndOK THEN End("indicator")
  ELSE End("ok")

(* ---- the multiplier of the little co-group: exp(-2 pi i g_i . w_j), g_i = R_i^T k - k not reduced ---- *)
Factor == pc = "factor" /\
  IF A.status # "ok" THEN End("answers")
  ELSE IF Len(A.f) # n \/ \E a \in 1..n : Len(A.f[a]) # n THEN End("factor-shape")
  ELSE IF \E a \in 1..n : \E b \in 1..n : \E ph \in {Cis(MultExp(C.ops, C.k, a, b), C.Dk * C.Dt)} :
       ~Near(A.f[a][b][1], ph[1], 4) \/ ~Near(A.f[a][b][2], ph[2], 4) THEN End("factor-system")
  ELSE End("ok")
Next == Start \/ Group \/ Absorb \/ Answer \/ Law \/ Complete \/ Indicator \/ Small \/ Factor
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
===========================================================================
