----------------------------- MODULE GroupRep -----------------------------
(* A recorded request on (projective) representations of a group of rotations:
   c.ops, certified rows c.rows/c.mul, multiplier exponents c.mu over c.muden
   for those rows.  The rows generate the group.                             *)
EXTENDS Cryst, Rep, Fine, Judge
RowsOK(c) == LET L == c.ops  m == Len(c.ops) IN
  /\ Len(c.rows) = Len(c.mul) /\ Len(c.mu) = Len(c.rows)
  /\ \A q \in 1..Len(c.rows) : c.rows[q] \in 1..m /\ Len(c.mul[q]) = m /\ Len(c.mu[q]) = m /\
       \A b \in 1..m : c.mul[q][b] \in 1..m /\ RMul(L[c.rows[q]][1], L[b][1]) = L[c.mul[q][b]][1]
RECURSIVE ReachR(_, _, _)
ReachR(c, seen, front) == IF front = {} THEN seen
  ELSE LET nxt == { c.mul[q][b] : q \in 1..Len(c.rows), b \in front } \ seen IN ReachR(c, seen \cup nxt, nxt)
Generates(c) == \E e \in 1..Len(c.ops) : c.ops[e][1] = E9 /\ Cardinality(ReachR(c, {e}, {e})) = Len(c.ops)
\* r is a representation with the multipliers of the request
IsRep(c, r) == \A q \in 1..Len(c.rows) : \A b \in 1..Len(c.ops) :
   ProdIs(r, c.rows[q], b, c.mul[q][b], IF c.muden = 1 THEN <<S, 0>> ELSE Cis(c.mu[q][b], c.muden), FALSE)
LegalRep(c, r) == Shaped(r, Len(c.ops)) /\ Bounded(r) /\ IsRep(c, r) /\ Unitary(r)
\* <u, v> of complex vectors (u conjugated), scale S*S
VDot(ur, ui, vr, vi) == LET m == Idx(Len(ur)) IN
  << FoldLeft(LAMBDA z, q : z + ur[q]*vr[q] + ui[q]*vi[q], 0, m),
     FoldLeft(LAMBDA z, q : z + ur[q]*vi[q] - ui[q]*vr[q], 0, m) >>
VNear(v, x, y, tol) == Near(v[1], x, tol) /\ Near(v[2], y, tol)
\* samples f of the law of the recorded representations list: irrep f.r, row f.q, column f.b, multiplier f.m/24
LawSampleLegal(c, f) == f.q \in 1..Len(c.rows) /\ f.b \in 1..Len(c.ops) /\ (24 * c.mu[f.q][f.b] - f.m * c.muden) % (24 * c.muden) = 0
LawSampleOK(c, r, f) == LET a == c.rows[f.q]  k == c.mul[f.q][f.b]  fd == Dim(r) IN
   /\ WellFormed(f.x, fd) /\ WellFormed(f.y, fd) /\ WellFormed(f.z, fd)
   /\ SameAs(f.x, r.re[a], r.im[a]) /\ SameAs(f.y, r.re[f.b], r.im[f.b]) /\ SameAs(f.z, r.re[k], r.im[k])
   /\ FineUnitary(f.x, fd) /\ FineProd(f.x, f.y, f.z, f.m, 1, FALSE, fd)
============================================================================
