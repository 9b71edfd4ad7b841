----------------------------- MODULE RealReps -----------------------------
(* Physically irreducible representations (C07): real orthogonal matrices with
   the multiplication law where a lattice translation n acts as cos(2 pi k.n)
   (indicator 1) or as the rotation block.  c.ops is the little group,
   c.rows/c.mul certified rows of its table; A.irreps, A.isreal, A.ind;
   A.cplx complex irreps (only to name the known incompleteness at 2k # 0). *)
EXTENDS Cryst, Rep, Fine, Judge
VARIABLES ci, pc, verdict
vars == <<ci, pc, verdict>>
C == Cases[ci]
A == C.ans
Samples == IF "fine" \in DOMAIN A THEN A.fine ELSE <<>>
n == Len(C.ops)
N == C.Dk * C.Dt
RealK == \A i \in 1..3 : (2 * C.k[i]) % C.Dk = 0
CertOK == LET L == C.ops IN
  /\ N < 32768 /\ Len(C.rows) = Len(C.mul)
  /\ \A q \in 1..Len(C.rows) : C.rows[q] \in 1..n /\ Len(C.mul[q]) = n /\
       \A b \in 1..n : C.mul[q][b] \in 1..n /\ OpEqv(OpMul(L[C.rows[q]], L[b]), L[C.mul[q][b]], C.Dt)
  /\ \A a \in 1..n : Stabilises(L[a], C.k, C.Dk)
RECURSIVE Reach(_, _)
Reach(seen, front) == IF front = {} THEN seen
  ELSE LET nxt == { C.mul[q][b] : q \in 1..Len(C.rows), b \in front } \ seen IN Reach(seen \cup nxt, nxt)
GensOK == \E e \in 1..n : C.ops[e][1] = E9 /\ Cardinality(Reach({e}, {e})) = n

R == A.irreps
ShapesOK == \A r \in 1..Len(R) : Shaped(R[r], n) /\ (A.ind[r] = 1 \/ Dim(R[r]) % 2 = 0)
RealOK == \A r \in 1..Len(R) : A.isreal[r] = 1
\* T(x) X, row a column b, for the phase <<cos, sin>> of the lattice translation
TX(r, k, ph, a, b) ==
  LET d == Dim(R[r])  X == R[r].re[k] IN
  IF A.ind[r] = 1 THEN ph[1] * X[(a-1)*d + b]
  ELSE LET h == d \div 2 IN
       IF a <= h THEN ph[1] * X[(a-1)*d + b] - ph[2] * X[(a+h-1)*d + b]
       ELSE ph[2] * X[(a-h-1)*d + b] + ph[1] * X[(a-1)*d + b]
LawFor(r) ==
  LET d == Dim(R[r])  dd == Idx(d) IN
  \A q \in 1..Len(C.rows) : \A j \in 1..n :
    LET i == C.rows[q]  k == C.mul[q][j]
        res == V3Sub(V3Add(C.ops[i][2], RApp(C.ops[i][1], C.ops[j][2])), C.ops[k][2])
        ph == Cis(Dot3(C.k, res), N)
        X == R[r].re[i]  Y == R[r].re[j]
    IN \A a \in 1..d : \A b \in 1..d :
         Near(FoldLeft(LAMBDA z, c : z + X[(a-1)*d+c]*Y[(c-1)*d+b], 0, dd), TX(r, k, ph, a, b), TOL)
LawOK == \A r \in 1..Len(R) : LawFor(r)
\* samples of the law to 2e-6 where the lattice translation acts as +1 or -1 (f.m = 0, 12 of 24)
FineSampleLegal(f) ==
  LET i == C.rows[f.q]  k == C.mul[f.q][f.b]
      res == V3Sub(V3Add(C.ops[i][2], RApp(C.ops[i][1], C.ops[f.b][2])), C.ops[k][2])
  IN f.m \in {0, 12} /\ (24 * (Dot3(C.k, res) % N) - f.m * N) % (24 * N) = 0
FineOK(f) ==
  LET i == C.rows[f.q]  k == C.mul[f.q][f.b]  X == R[f.r]  d == Dim(R[f.r]) IN
  /\ WellFormed(f.x, d) /\ WellFormed(f.y, d) /\ WellFormed(f.z, d)
  /\ SameAs(f.x, X.re[i], X.im[i]) /\ SameAs(f.y, X.re[f.b], X.im[f.b]) /\ SameAs(f.z, X.re[k], X.im[k])
  /\ FineUnitary(f.x, d) /\ FineProd(f.x, f.y, f.z, f.m, 1, FALSE, d)
IdentOK == \A a \in 1..n : C.ops[a][1] = E9 =>
   \A r \in 1..Len(R) : LET d == Dim(R[r])  ph == Cis(Dot3(C.k, C.ops[a][2]), N) IN
     \A x \in 1..d : \A y \in 1..d :
       Near(R[r].re[a][(x-1)*d+y],
            IF A.ind[r] = 1 \/ x = y THEN (IF x = y THEN ph[1] ELSE 0)
            ELSE IF x <= d \div 2 /\ y = x + d \div 2 THEN -ph[2]
            ELSE IF y <= d \div 2 /\ x = y + d \div 2 THEN ph[2] ELSE 0, 8)
\* real kpoint: types by <chi,chi> = 1, 2, 4 and sum of chi(g^2) = 1, 0, -2 (times the order)
Chis == TLCEval([r \in 1..Len(R) |-> Chi(R[r])])
All == Idx(n)
Fs(r) == LET d == Dim(R[r])  u == S * 32 IN  \* scale S*S/(S*32) = 256
  FoldLeft(LAMBDA z, g : z + FoldLeft(LAMBDA y, a : y + FoldLeft(LAMBDA x, b : x + R[r].re[g][(a-1)*d+b]*R[r].re[g][(b-1)*d+a], 0, Idx(d)) \div u, 0, Idx(d)), 0, All)
TypeOK == LET X == Chis IN \A r \in 1..Len(R) :
   /\ DotIs(X[r], X[r], All, IF A.ind[r] = 1 THEN 1 ELSE IF A.ind[r] = 0 THEN 2 ELSE 4)
   /\ Near(Fs(r), (IF A.ind[r] = 1 THEN 1 ELSE IF A.ind[r] = 0 THEN 0 ELSE -2) * n * 256, n * 64)
InequivOK == LET X == Chis IN \A r \in 1..Len(R) : \A s \in 1..Len(R) : r < s => DotIs(X[r], X[s], All, 0)
CompleteOK == SumSeq([r \in 1..Len(R) |-> (4 * Dim(R[r]) * Dim(R[r])) \div (IF A.ind[r] = 1 THEN 1 ELSE IF A.ind[r] = 0 THEN 2 ELSE 4)]) = 4 * n
\* 2k is not a reciprocal vector: every representation is of complex type; the law makes it the
\* real form of a complex small representation, whose character is read off the blocks
CChi(r) == LET d == Dim(R[r])  h == d \div 2 IN
  [g \in 1..n |-> << Rnd32(FoldLeft(LAMBDA z, a : z + R[r].re[g][(a-1)*d+a], 0, Idx(h))),
                     Rnd32(FoldLeft(LAMBDA z, a : z + R[r].re[g][(a-1)*d+h+a], 0, Idx(h))) >>]
CChis == TLCEval([r \in 1..Len(R) |-> CChi(r)])
CNormOK == LET X == CChis IN \A r \in 1..Len(R) : DotIs(X[r], X[r], All, 1)
CInequivOK == LET X == CChis IN \A r \in 1..Len(R) : \A s \in 1..Len(R) : r < s => DotIs(X[r], X[s], All, 0)
CCompleteOK == SumSeq([r \in 1..Len(R) |-> (Dim(R[r]) \div 2) * (Dim(R[r]) \div 2)]) = n
\* missing irreps are all of the kind the implementation drops: their coset character is (within
\* the rounding of its test) the conjugate of the coset character of a returned one
Conj(x) == [g \in 1..n |-> << x[g][1], -x[g][2] >>]
\* the implementation's test: the rounded inner product equals the order
RoundsTo(v) == LET u == CS * CS IN 2 * v[1] >= (2*n - 1) * u - 8192 /\ Abs(2 * v[2]) <= u + 8192
KnownMissing ==
  LET X == CChis  Z == TLCEval([s \in 1..Len(A.cplx) |-> Chi(A.cplx[s])]) IN
  /\ SumSeq([s \in 1..Len(Z) |-> A.cplx[s].d[1] * A.cplx[s].d[1]]) = n
  /\ \A s \in 1..Len(Z) : (\A r \in 1..Len(X) : ~DotIs(X[r], Z[s], All, 1))
                              => \E r \in 1..Len(X) : RoundsTo(ChiDot(Conj(X[r]), Z[s], All))

End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED ci /\ Report(ci, C.id, v)
Goto(p) == pc' = p /\ UNCHANGED <<ci, verdict>>
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ verdict = "none"
Start == pc = "start" /\
  IF ~CertOK THEN End("BAD-cert") ELSE IF ~GensOK THEN End("BAD-gens")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE IF Len(A.ind) # Len(R) \/ Len(A.isreal) # Len(R) THEN End("indicator-length")
  ELSE IF \E r \in 1..Len(R) : A.ind[r] \notin (IF RealK THEN {-1, 0, 1} ELSE {0}) THEN End("indicator-value")
  ELSE Goto("matrices")
Matrices == pc = "matrices" /\
  IF ~RealOK THEN End("real") ELSE IF ~ShapesOK THEN End("shape")
  ELSE IF \E r \in 1..Len(R) : ~Bounded(R[r]) THEN End("bounded")
  ELSE IF \E r \in 1..Len(R) : ~Unitary(R[r]) THEN End("orthogonal")
  ELSE Goto("law")
Law == pc = "law" /\ IF ~LawOK THEN End("law")
  ELSE IF \E f \in 1..Len(Samples) : ~FineSampleLegal(Samples[f]) THEN End("BAD-fine")
  ELSE IF \E f \in 1..Len(Samples) : ~FineOK(Samples[f]) THEN End("law-precise")
  ELSE IF ~IdentOK THEN End("identity") ELSE Goto("types")
Types == pc = "types" /\
  IF RealK THEN IF ~TypeOK THEN End("indicator") ELSE IF ~InequivOK THEN End("inequivalent")
                ELSE IF ~CompleteOK THEN End("complete") ELSE End("ok")
  ELSE IF ~CNormOK THEN End("composed-of-irrep")
  ELSE IF ~CInequivOK THEN End("inequivalent")
  ELSE IF CCompleteOK THEN End("ok")
  ELSE IF KnownMissing THEN End("KNOWN:pir-conjugate-coset-characters")
  ELSE End("complete")
Next == Start \/ Matrices \/ Law \/ Types
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
===========================================================================
