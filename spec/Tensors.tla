------------------------------ MODULE Tensors ------------------------------
(* get_symmetry_adapted_tensors (C14) and apply_intrinsic_symmetry (C15).
   Tensors are flat row-major records [re, im] of unit norm at scale S, all with
   C.dim entries per index and C.rank indices.
   "adapted":   C.rep, C.real ; A.tensors (normalised), A.w independence certificates
   "intrinsic": C.tensors (normalised) ; A.out, A.w, A.q (orthonormal basis), A.piv
                (indices of inputs), A.pw (their certificates), A.same (inputs untouched);
                with C.rep present (C.count) the number is the symmetric-power count.     *)
EXTENDS GroupRep
VARIABLES ci, pc, s, verdict
vars == <<ci, pc, s, verdict>>
C == Cases[ci]
A == C.ans
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<ci, s>> /\ Report(ci, C.id, v)
Goto(p) == pc' = p /\ s' = 1 /\ UNCHANGED <<ci, verdict>>
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ s = 1 /\ verdict = "none"

d == C.dim
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Size == Pow(d, C.rank)
VecOK(t) == Len(t.re) = Size /\ Len(t.im) = Size /\ \A q \in 1..Size : Abs(t.re[q]) <= S + 8 /\ Abs(t.im[q]) <= S + 8
Inner(u, v) == VDot(u.re, u.im, v.re, v.im)
UnitVec(t) == VNear(Inner(t, t), S*S, 0, 16*S)

(* ---- characters, powers and symmetric powers at scale PS ---- *)
PS == 2048
Rp(x) == (x + 2) \div 4
ChiP(r) == LET e == Dim(r)  ee == Idx(e) IN TLCEval([g \in 1..r.n |->
   << Rp(FoldLeft(LAMBDA z, a : z + r.re[g][(a-1)*e+a], 0, ee)), Rp(FoldLeft(LAMBDA z, a : z + r.im[g][(a-1)*e+a], 0, ee)) >>])
Half == PS \div 2
MulP(x, y) == << (x[1]*y[1] - x[2]*y[2] + Half) \div PS, (x[1]*y[2] + x[2]*y[1] + Half) \div PS >>
AddP(x, y) == << x[1] + y[1], x[2] + y[2] >>
ScP(k, x) == << k*x[1], k*x[2] >>
RECURSIVE PowP(_, _)
PowP(x, e) == IF e = 1 THEN x ELSE MulP(PowP(x, e-1), x)
Total(f) == FoldLeft(LAMBDA z, x : AddP(z, x), <<0, 0>>, f)
\* the integer nearest to the group average, and whether the average is that integer
Avg(f) == LET t == Total(f)  u == Len(f) * PS IN (t[1] + u \div 2) \div u
AvgExact(f) == LET t == Total(f)  u == Len(f) * PS IN Near(t[1], Avg(f)*u, u \div 4) /\ Near(t[2], 0, u \div 4)
Invariants == LET x == ChiP(C.rep) IN TLCEval([g \in 1..Len(x) |-> PowP(x[g], C.rank)])
\* complete homogeneous symmetric polynomial of the eigenvalues: e h_e = sum over j of p_j h_(e-j) (Newton),
\* p_j = the character of the j-th power
PowIdx(g, j) == IF j = 1 THEN g ELSE C.pows[g][j-1]
RECURSIVE HomP(_, _, _)
HomP(x, g, e) == IF e = 0 THEN <<PS, 0>>
  ELSE LET t == FoldLeft(LAMBDA z, j : AddP(z, MulP(x[PowIdx(g, j)], HomP(x, g, e - j))), <<0, 0>>, Idx(e))
       IN << (t[1] + e \div 2) \div e, (t[2] + e \div 2) \div e >>
SymPow(x, g) == HomP(x, g, C.rank)
RECURSIVE Factorial(_)
Factorial(e) == IF e = 0 THEN 1 ELSE e * Factorial(e - 1)
\* the recorded second and higher powers of every operation
PowsOK == Len(C.pows) = Len(C.ops) /\ \A g \in 1..Len(C.ops) : LET r == C.ops[g][1]  w == C.pows[g] IN
   Len(w) = C.rank - 1 /\ \A e \in 1..(C.rank - 1) : w[e] \in 1..Len(C.ops) /\ C.ops[w[e]][1] = RMul(r, IF e = 1 THEN r ELSE C.ops[w[e-1]][1])
Fact == Factorial(C.rank)
SymInvariants == LET x == ChiP(C.rep) IN TLCEval([g \in 1..Len(x) |-> SymPow(x, g)])

Start == pc = "start" /\
  IF C.rank < 1 \/ C.rank > 6 \/ d < 1 \/ Size > 256 THEN End("BAD-size")
  ELSE IF C.group /\ (~RowsOK(C) \/ ~Generates(C)) THEN End("BAD-cert")
  ELSE IF C.group /\ (C.muden # 1 \/ ~LegalRep(C, C.rep) \/ Dim(C.rep) # d) THEN End("BAD-representation")
  ELSE IF C.kind = "intrinsic" /\ C.group /\ ~PowsOK THEN End("BAD-rows")
  ELSE IF C.group /\ C.kind = "adapted" /\ ~AvgExact(Invariants) THEN End("BAD-average")
  ELSE IF C.group /\ C.kind = "intrinsic" /\ ~AvgExact(SymInvariants) THEN End("BAD-average")
  ELSE IF C.kind = "intrinsic" /\ \E i \in 1..Len(C.tensors) : ~VecOK(C.tensors[i]) \/ ~UnitVec(C.tensors[i]) THEN End("BAD-tensor")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE Goto(C.kind)

(* ---- mode product of T with the matrix g of the representation on every index ---- *)
\* T viewed as (left, d, right) with right = d^(rank-a)
ModeMul(T, g, a) ==
  LET right == Pow(d, C.rank - a)  dd == Idx(d)  mr == C.rep.re[g]  mi == C.rep.im[g]
      el(q) == LET z == q - 1  rr == z % right  i == (z \div right) % d  l == z \div (right * d)
                   at(j) == (l*d + j - 1)*right + rr + 1
               IN << FoldLeft(LAMBDA v, j : v + mr[i*d+j]*T.re[at(j)] - mi[i*d+j]*T.im[at(j)], 0, dd),
                     FoldLeft(LAMBDA v, j : v + mr[i*d+j]*T.im[at(j)] + mi[i*d+j]*T.re[at(j)], 0, dd) >>
      all == TLCEval([q \in 1..Size |-> el(q)])
  IN [re |-> TLCEval([q \in 1..Size |-> (all[q][1] + S \div 2) \div S]), im |-> TLCEval([q \in 1..Size |-> (all[q][2] + S \div 2) \div S])]
RECURSIVE Act(_, _, _)
Act(T, g, a) == IF a > C.rank THEN T ELSE Act(ModeMul(T, g, a), g, a + 1)
Invariant(T) == \A r \in 1..Len(C.rows) : LET U == Act(T, C.rows[r], 1) IN
   \A q \in 1..Size : Near(U.re[q], T.re[q], 24) /\ Near(U.im[q], T.im[q], 24)
\* certificate w: unit, orthogonal to the vectors before, overlapping with this one
NewVec(list, i, w) ==
  /\ VecOK(w) /\ UnitVec(w)
  /\ \A e \in 1..(i-1) : VNear(Inner(w, list[e]), 0, 0, 16*S)
  /\ LET p == Inner(w, list[i]) IN Abs(p[1]) + Abs(p[2]) >= 64*S

(* ---- C14 ---- *)
Adapted == pc = "adapted" /\
  IF Len(A.tensors) # Avg(Invariants) THEN End("count")
  ELSE IF Len(A.w) # Len(A.tensors) THEN End("shape")
  ELSE IF \E i \in 1..Len(A.tensors) : ~VecOK(A.tensors[i]) THEN End("shape")
  ELSE IF C.real /\ \E i \in 1..Len(A.tensors) : \E q \in 1..Size : A.tensors[i].im[q] # 0 THEN End("real")
  ELSE Goto("each")
Each == pc = "each" /\
  IF s > Len(A.tensors) THEN End("ok")
  ELSE IF ~UnitVec(A.tensors[s]) THEN End("zero-tensor")
  ELSE IF ~Invariant(A.tensors[s]) THEN End("invariant")
  ELSE IF ~NewVec(A.tensors, s, A.w[s]) THEN End("independent")
  ELSE s' = s + 1 /\ UNCHANGED <<ci, pc, verdict>>

(* ---- C15 ---- *)
\* position of the entry with indices a and a+1 exchanged
Swap(q, a) == LET right == Pow(d, C.rank - a - 1)  z == q - 1  rr == z % right
                  j == (z \div right) % d  i == (z \div (right*d)) % d  l == z \div (right*d*d)
              IN ((l*d + j)*d + i)*right + rr + 1
Symmetric(t) == \A a \in 1..(C.rank - 1) : \A q \in 1..Size : LET p == Swap(q, a) IN Near(t.re[q], t.re[p], 4) /\ Near(t.im[q], t.im[p], 4)
\* the sum over all index permutations, generated by inserting the last index into the symmetrised front
Move(t, a) == LET m == TLCEval([q \in 1..Size |-> Swap(q, a)]) IN [re |-> TLCEval([q \in 1..Size |-> t.re[m[q]]]), im |-> TLCEval([q \in 1..Size |-> t.im[m[q]]])]
Plus(u, v) == [re |-> TLCEval([q \in 1..Size |-> u.re[q] + v.re[q]]), im |-> TLCEval([q \in 1..Size |-> u.im[q] + v.im[q]])]
\* sum over cosets of S_b in S_(b+1): identity, (b b+1), (b b+1)(b-1 b), ...
RECURSIVE Insert(_, _, _)
Insert(t, a, acc) == IF a = 0 THEN acc ELSE LET u == TLCEval(Move(t, a)) IN Insert(u, a - 1, TLCEval(Plus(acc, u)))
RECURSIVE SymUp(_, _)
SymUp(t, b) == IF b > C.rank - 1 THEN t ELSE SymUp(TLCEval(Insert(t, b, t)), b + 1)
SymOf(t) == LET u == TLCEval(SymUp(t, 1)) IN [re |-> TLCEval([q \in 1..Size |-> u.re[q] \div Fact]), im |-> TLCEval([q \in 1..Size |-> u.im[q] \div Fact])]
\* t lies in the span of the orthonormal A.q: its residual vanishes entry by entry (0.4 per cent of a unit vector)
InSpan(t) ==
  LET k == Idx(Len(A.q)) IN
  \A co \in { [i \in 1..Len(A.q) |-> LET p == Inner(A.q[i], t) IN << (p[1] + S \div 2) \div S, (p[2] + S \div 2) \div S >>] } :
     \A x \in 1..Size :
       /\ Near(FoldLeft(LAMBDA z, i : z + A.q[i].re[x]*co[i][1] - A.q[i].im[x]*co[i][2], 0, k), t.re[x]*S, 32*S)
       /\ Near(FoldLeft(LAMBDA z, i : z + A.q[i].re[x]*co[i][2] + A.q[i].im[x]*co[i][1], 0, k), t.im[x]*S, 32*S)
Intrinsic == pc = "intrinsic" /\
  IF ~A.same THEN End("inputs-modified")
  ELSE IF \E i \in 1..Len(A.out) : ~VecOK(A.out[i]) THEN End("shape")
  ELSE IF C.group /\ Len(A.out) # Avg(SymInvariants) THEN End("count")
  ELSE IF \E i \in 1..Len(A.out) : ~UnitVec(A.out[i]) THEN End("normalised")
  ELSE IF \E i \in 1..Len(A.out) : ~Symmetric(A.out[i]) THEN End("symmetric")
  ELSE IF Len(A.w) # Len(A.out) \/ Len(A.q) # Len(A.out) THEN End("shape")
  ELSE IF \E i \in 1..Len(A.out) : ~NewVec(A.out, i, A.w[i]) THEN End("independent")
  ELSE Goto("span")
\* the span: |q| = |out| orthonormal vectors containing every output and every symmetrised input, and as many
\* independent symmetrised inputs as outputs
SpanVerdict(si, pv) ==
  IF \E i \in 1..Len(A.q) : ~VecOK(A.q[i]) \/ \E j \in i..Len(A.q) : ~VNear(Inner(A.q[i], A.q[j]), IF i = j THEN S*S ELSE 0, 0, 24*S) THEN "shape"
  ELSE IF \E i \in 1..Len(A.out) : ~InSpan(A.out[i]) THEN "shape"
  ELSE IF \E i \in 1..Len(si) : ~InSpan(si[i]) THEN "span-missing"
  ELSE IF Len(A.piv) # Len(A.out) THEN "span-extra"
  ELSE IF \E i \in 1..Len(pv) : ~NewVec(pv, i, A.pw[i]) THEN "span-extra"
  ELSE "ok"
\* (sets of one element: the values are computed once)
Span == pc = "span" /\
  \E si \in { [i \in 1..Len(C.tensors) |-> SymOf(C.tensors[i])] } :
  \E pv \in { [i \in 1..Len(A.piv) |-> si[A.piv[i]]] } : End(SpanVerdict(si, pv))
Next == Start \/ Adapted \/ Each \/ Intrinsic \/ Span
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
============================================================================
