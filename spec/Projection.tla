---------------------------- MODULE Projection ----------------------------
(* project_to_irrep (C12), decompose_representation, get_direct_product and
   get_character (C13).  c.kind:
   "project":   c.rep, c.irrep ; A.bases = records [n |-> 1, d |-> <<dim, D>>], A.w = certificates
   "decompose": c.rep ; A.irreps
   "product":   exact Gaussian integer matrices c.x, c.y, A.p
   "character": exact c.x, A.ch
   "error":     must raise ValueError                                        *)
EXTENDS GroupRep
VARIABLES ci, pc, s, verdict
vars == <<ci, pc, s, verdict>>
C == Cases[ci]
A == C.ans
Samples == IF "fine" \in DOMAIN A THEN A.fine ELSE <<>>
n == Len(C.ops)
All == Idx(n)
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<ci, s>> /\ Report(ci, C.id, v)
Goto(p) == pc' = p /\ UNCHANGED <<ci, s, verdict>>
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ s = 1 /\ verdict = "none"
Start == pc = "start" /\
  IF C.kind = "error" THEN IF A.status = "raises:ValueError" THEN End("ok") ELSE End("rejects")
  ELSE IF C.kind \in {"product", "character"} THEN IF A.status # "ok" THEN End("answers") ELSE Goto(C.kind)
  ELSE IF ~RowsOK(C) \/ ~Generates(C) THEN End("BAD-cert")
  ELSE IF ~LegalRep(C, C.rep) \/ (C.kind = "project" /\ ~LegalRep(C, C.irrep)) THEN End("BAD-representation")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE Goto(C.kind)

(* ---- projection ---- *)
D == Dim(C.rep)
di == Dim(C.irrep)
M == Mult(Chi(C.irrep), Chi(C.rep), All)
Project == pc = "project" /\
  IF Len(A.bases) # M THEN End("count")
  ELSE IF \E b \in 1..Len(A.bases) : A.bases[b].n # 1 \/ A.bases[b].d # <<di, D>> THEN End("basis-shape")
  ELSE IF \E b \in 1..Len(A.bases) : \E q \in 1..(di*D) : Abs(A.bases[b].re[1][q]) > S + 8 \/ Abs(A.bases[b].im[1][q]) > S + 8 THEN End("basis-bounded")
  ELSE Goto("bases")
VRow(b, i) == << SubSeq(A.bases[b].re[1], (i-1)*D+1, i*D), SubSeq(A.bases[b].im[1], (i-1)*D+1, i*D) >>
Orthonormal(b) == \A i \in 1..di : \A j \in i..di :
   LET u == VRow(b, i)  v == VRow(b, j) IN VNear(VDot(u[1], u[2], v[1], v[2]), IF i = j THEN S*S ELSE 0, 0, TOL)
\* rep(g) e_i = sum_j e_j irrep(g)_ji for the generating operations
Transforms(b) ==
  LET dd == Idx(D)  ee == Idx(di)  X == A.bases[b].re[1]  Y == A.bases[b].im[1] IN
  \A q \in 1..Len(C.rows) : LET g == C.rows[q]  pr == C.rep.re[g]  pi == C.rep.im[g]  tr == C.irrep.re[g]  ti == C.irrep.im[g] IN
   \A a \in 1..D : \A i \in 1..di :
     LET lr == FoldLeft(LAMBDA z, x : z + pr[(a-1)*D+x]*X[(i-1)*D+x] - pi[(a-1)*D+x]*Y[(i-1)*D+x], 0, dd)
         li == FoldLeft(LAMBDA z, x : z + pr[(a-1)*D+x]*Y[(i-1)*D+x] + pi[(a-1)*D+x]*X[(i-1)*D+x], 0, dd)
         rr == FoldLeft(LAMBDA z, j : z + X[(j-1)*D+a]*tr[(j-1)*di+i] - Y[(j-1)*D+a]*ti[(j-1)*di+i], 0, ee)
         ri == FoldLeft(LAMBDA z, j : z + X[(j-1)*D+a]*ti[(j-1)*di+i] + Y[(j-1)*D+a]*tr[(j-1)*di+i], 0, ee)
     IN Near(lr, rr, TOL) /\ Near(li, ri, TOL)
\* the certificate w_b is a unit vector orthogonal to the earlier copies but not to this one; by
\* Schur's lemma the copy is then independent of all earlier ones
\* the same for one operation to 4e-6: A.fine[b] = [g, x = rep(g), v = basis as columns, t = irrep(g)]
FineTransforms(b) == LET f == Samples[b]  g == f.g IN
  /\ WellFormedAs(f.x, D*D) /\ WellFormedAs(f.v, D*di) /\ WellFormedAs(f.t, di*di)
  /\ SameAs(f.x, C.rep.re[g], C.rep.im[g]) /\ SameAs(f.t, C.irrep.re[g], C.irrep.im[g])
  /\ \A a \in 1..D : \A i \in 1..di : Near(f.v.rh[(a-1)*di+i], A.bases[b].re[1][(i-1)*D+a], 1) /\ Near(f.v.ih[(a-1)*di+i], A.bases[b].im[1][(i-1)*D+a], 1)
  /\ FineEq(FineMM(f.x, f.v, D, D, di), FineMM(f.v, f.t, D, di, di), 2*FTOL)
NewCopy(b) == LET w == A.w[b] IN
  /\ Len(w.re) = D
  /\ \A x \in 1..D : Abs(w.re[x]) <= S + 8 /\ Abs(w.im[x]) <= S + 8
  /\ VNear(VDot(w.re, w.im, w.re, w.im), S*S, 0, TOL)
  /\ \A e \in 1..(b-1) : \A i \in 1..di : LET v == VRow(e, i) IN VNear(VDot(w.re, w.im, v[1], v[2]), 0, 0, 16*S)
  /\ LET v == VRow(b, 1)  p == VDot(w.re, w.im, v[1], v[2]) IN Abs(p[1]) + Abs(p[2]) >= 64*S
Bases == pc = "bases" /\
  IF s > Len(A.bases) THEN End("ok")
  ELSE IF ~Orthonormal(s) THEN End("orthonormal")
  ELSE IF ~Transforms(s) THEN End("transforms")
  ELSE IF s <= Len(Samples) /\ ~FineTransforms(s) THEN End("transforms-precise")
  ELSE IF ~NewCopy(s) THEN End("independent")
  ELSE s' = s + 1 /\ UNCHANGED <<ci, pc, verdict>>

(* ---- decomposition ---- *)
Decompose == pc = "decompose" /\
  IF \E r \in 1..Len(A.irreps) : ~Shaped(A.irreps[r], n) THEN End("shape")
  ELSE IF \E r \in 1..Len(A.irreps) : ~Bounded(A.irreps[r]) \/ ~Unitary(A.irreps[r]) THEN End("unitary")
  ELSE IF \E r \in 1..Len(A.irreps) : ~IsRep(C, A.irreps[r]) THEN End("law")
  ELSE IF \E f \in 1..Len(Samples) : ~LawSampleLegal(C, Samples[f]) THEN End("BAD-fine")
  ELSE IF \E f \in 1..Len(Samples) : ~LawSampleOK(C, A.irreps[Samples[f].r], Samples[f]) THEN End("law-precise")
  ELSE LET X == TLCEval([r \in 1..Len(A.irreps) |-> Chi(A.irreps[r])])  Y == Chi(C.rep) IN
       IF \E r \in 1..Len(X) : ~DotIs(X[r], X[r], All, 1) THEN End("irreducible")
       ELSE IF \E r \in 1..Len(X) : \E t \in 1..Len(X) : r < t /\ ~DotIs(X[r], X[t], All, 0) THEN End("inequivalent")
       ELSE IF \E r \in 1..Len(X) : Mult(X[r], Y, All) < 1 \/ ~MultExact(X[r], Y, All) THEN End("contained")
       ELSE IF SumSeq([r \in 1..Len(X) |-> Mult(X[r], Y, All) * Dim(A.irreps[r])]) # Dim(C.rep) THEN End("complete")
       ELSE End("ok")

(* ---- exact products and characters ---- *)
Product == pc = "product" /\
  LET d1 == C.x.d[1]  d2 == C.y.d[1]  e == d1*d2 IN
  IF A.p.n # C.x.n \/ A.p.d # <<e, e>> THEN End("product-shape")
  ELSE IF \E g \in 1..C.x.n : \E a \in 1..d1 : \E b \in 1..d2 : \E c \in 1..d1 : \E d \in 1..d2 :
       LET p == ((a-1)*d2 + b - 1)*e + (c-1)*d2 + d  xr == C.x.re[g][(a-1)*d1+c]  xi == C.x.im[g][(a-1)*d1+c]
           yr == C.y.re[g][(b-1)*d2+d]  yi == C.y.im[g][(b-1)*d2+d]
       IN A.p.re[g][p] # xr*yr - xi*yi \/ A.p.im[g][p] # xr*yi + xi*yr THEN End("product-entry")
  ELSE LET tr(r, g) == << SumSeq([a \in 1..r.d[1] |-> r.re[g][(a-1)*r.d[1]+a]]), SumSeq([a \in 1..r.d[1] |-> r.im[g][(a-1)*r.d[1]+a]]) >> IN
       IF \E g \in 1..C.x.n : LET u == tr(C.x, g)  v == tr(C.y, g)  w == tr(A.p, g) IN w # << u[1]*v[1] - u[2]*v[2], u[1]*v[2] + u[2]*v[1] >>
       THEN End("product-character") ELSE End("ok")
Character == pc = "character" /\
  IF Len(A.ch) # C.x.n THEN End("character-shape")
  ELSE IF \E g \in 1..C.x.n : A.ch[g] # << SumSeq([a \in 1..C.x.d[1] |-> C.x.re[g][(a-1)*C.x.d[1]+a]]), SumSeq([a \in 1..C.x.d[1] |-> C.x.im[g][(a-1)*C.x.d[1]+a]]) >>
  THEN End("character") ELSE End("ok")
Next == Start \/ Project \/ Bases \/ Decompose \/ Product \/ Character
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
============================================================================
