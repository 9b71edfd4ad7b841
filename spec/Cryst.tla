------------------------------ MODULE Cryst ------------------------------
(* Symmetry operations modulo the lattice Z^3.
   A rotation is a row-major 9-tuple of integers.  A translation is a triple
   of numerators over a common denominator Dt.  An operation is
   <<R, t, th>>, th = 1 for time reversal.  A k-vector is a triple of
   numerators over Dk.                                                     *)
EXTENDS Num, FiniteSets

E9 == <<1,0,0, 0,1,0, 0,0,1>>
RMul(a, b) == <<
  a[1]*b[1]+a[2]*b[4]+a[3]*b[7], a[1]*b[2]+a[2]*b[5]+a[3]*b[8], a[1]*b[3]+a[2]*b[6]+a[3]*b[9],
  a[4]*b[1]+a[5]*b[4]+a[6]*b[7], a[4]*b[2]+a[5]*b[5]+a[6]*b[8], a[4]*b[3]+a[5]*b[6]+a[6]*b[9],
  a[7]*b[1]+a[8]*b[4]+a[9]*b[7], a[7]*b[2]+a[8]*b[5]+a[9]*b[8], a[7]*b[3]+a[8]*b[6]+a[9]*b[9] >>
RApp(a, v) == << a[1]*v[1]+a[2]*v[2]+a[3]*v[3], a[4]*v[1]+a[5]*v[2]+a[6]*v[3], a[7]*v[1]+a[8]*v[2]+a[9]*v[3] >>
RTrans(a) == << a[1],a[4],a[7], a[2],a[5],a[8], a[3],a[6],a[9] >>
RDet(a) == a[1]*(a[5]*a[9]-a[6]*a[8]) - a[2]*(a[4]*a[9]-a[6]*a[7]) + a[3]*(a[4]*a[8]-a[5]*a[7])
RNeg(a) == << -a[1],-a[2],-a[3],-a[4],-a[5],-a[6],-a[7],-a[8],-a[9] >>
RTr(a) == a[1] + a[5] + a[9]
V3Add(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
V3Sub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
V3Mod0(v, D) == v[1] % D = 0 /\ v[2] % D = 0 /\ v[3] % D = 0

\* (R1,t1)(R2,t2) = (R1 R2, t1 + R1 t2); time reversals add modulo 2
OpMul(x, y) == << RMul(x[1], y[1]), V3Add(x[2], RApp(x[1], y[2])), (x[3] + y[3]) % 2 >>
\* equality modulo lattice translations
OpEqv(x, y, Dt) == x[1] = y[1] /\ x[3] = y[3] /\ V3Mod0(V3Sub(x[2], y[2]), Dt)

\* mul is a certificate for the multiplication table of ops modulo Z^3: verified, never trusted
IsMulTable(ops, mul, Dt) ==
  LET n == Len(ops) IN
  /\ Len(mul) = n
  /\ \A i \in 1..n : Len(mul[i]) = n /\ \A j \in 1..n :
       mul[i][j] \in 1..n /\ OpEqv(OpMul(ops[i], ops[j]), ops[mul[i][j]], Dt)
PairwiseDistinct(ops, Dt) ==
  \A i \in 1..Len(ops) : \A j \in 1..Len(ops) : i < j => ~OpEqv(ops[i], ops[j], Dt)
\* a finite set of operations closed under multiplication is a group modulo Z^3
IsGroup(ops, mul, Dt) == ops # <<>> /\ IsMulTable(ops, mul, Dt) /\ PairwiseDistinct(ops, Dt)

\* g stabilises k: +-R^T k - k is a reciprocal lattice vector
ResidualK(op, k) == LET q == RApp(RTrans(op[1]), k) IN
  IF op[3] = 1 THEN <<-q[1]-k[1], -q[2]-k[2], -q[3]-k[3]>> ELSE V3Sub(q, k)
Stabilises(op, k, Dk) == V3Mod0(ResidualK(op, k), Dk)
\* the little group as the increasing sequence of indices
LittleGroup(ops, k, Dk) == SelectSeq(Idx(Len(ops)), LAMBDA i : Stabilises(ops[i], k, Dk))

\* residual lattice translation of the product (i, j): t_i + R_i t_j - t_mul(i,j), numerators over Dt
ResidualT(ops, mul, i, j) ==
  V3Sub(V3Add(ops[i][2], RApp(ops[i][1], ops[j][2])), ops[mul[i][j]][2])
\* exponent (over Dk*Dt, in turns) of exp(-2 pi i k . residual)
PhaseExp(ops, mul, k, i, j) == -Dot3(k, ResidualT(ops, mul, i, j))
\* exponent of the nonsymmorphic multiplier exp(-2 pi i g_i . w_j), g_i = +-R_i^T k - k (anti: R^T k + k)
MultExp(ops, k, i, j) ==
  LET q == RApp(RTrans(ops[i][1]), k)
      g == IF ops[i][3] = 1 THEN V3Add(q, k) ELSE V3Sub(q, k)
  IN -Dot3(g, ops[j][2])
==========================================================================
