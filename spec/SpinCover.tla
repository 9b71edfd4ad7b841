---------------------------- MODULE SpinCover ----------------------------
(* Spinor rotations and their factor system (C08).
   c.ops <<R, t, th>>, c.mul certified table, c.lat, c.cart, A.U, A.z, A.anti;
   kind "axis": angle and axis of one proper rotation as a quaternion.       *)
EXTENDS Spin, Fine, Judge
VARIABLES ci, pc, row, verdict
vars == <<ci, pc, row, verdict>>
C == Cases[ci]
A == C.ans
Samples == IF "fine" \in DOMAIN A THEN A.fine ELSE <<>>
n == Len(C.ops)
PtMul(x, y) == << RMul(x[1], y[1]), (x[3] + y[3]) % 2 >>
PtOf(x) == << x[1], x[3] >>
CertOK == LET L == C.ops IN
  /\ Len(C.mul) = n
  /\ \A i \in 1..n : Len(C.mul[i]) = n /\ \A j \in 1..n :
       C.mul[i][j] \in 1..n /\ PtMul(L[i], L[j]) = PtOf(L[C.mul[i][j]])
Ident == CHOOSE e \in 1..n : C.ops[e][1] = E9 /\ C.ops[e][3] = 0
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<ci, row>> /\ Report(ci, C.id, v)
Goto(p) == pc' = p /\ UNCHANGED <<ci, row, verdict>>
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ row = 1 /\ verdict = "none"
Start == pc = "start" /\
  IF C.kind = "axis" THEN Goto("axis")
  ELSE IF ~CertOK THEN End("BAD-table")
  ELSE IF ~LatticeCert(C.lat, C.cart, C.ops) THEN End("BAD-lattice")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE IF ~(Shaped(A.U, n) /\ Dim(A.U) = 2 /\ Bounded(A.U)) THEN End("shape")
  ELSE IF Len(A.z) # n \/ \E i \in 1..n : Len(A.z[i]) # n THEN End("shape")
  ELSE IF A.anti # [i \in 1..n |-> C.ops[i][3]] THEN End("anti-linear-flags")
  ELSE Goto("cover")
Cover == pc = "cover" /\
  IF ~CoversAll(A.U, C.cart, C.ops) THEN End("cover")
  ELSE IF \E i \in 1..n : A.z[i][Ident] # 1 \/ A.z[Ident][i] # 1 THEN End("identity")
  ELSE Goto("rows")
\* samples of the product law to 2e-6: A.fine[.] = [a, b, x, y, z]
FineOK(f) == LET k == C.mul[f.a][f.b] IN
   /\ WellFormed(f.x, 2) /\ WellFormed(f.y, 2) /\ WellFormed(f.z, 2)
   /\ SameAs(f.x, A.U.re[f.a], A.U.im[f.a]) /\ SameAs(f.y, A.U.re[f.b], A.U.im[f.b]) /\ SameAs(f.z, A.U.re[k], A.U.im[k])
   /\ FineUnitary(f.x, 2) /\ FineProd(f.x, f.y, f.z, 0, A.z[f.a][f.b], C.ops[f.a][3] = 1, 2)
\* one left factor at a time: sign, product law, cocycle
Rows == pc = "rows" /\
  IF row > n THEN (IF \A f \in 1..Len(Samples) : FineOK(Samples[f]) THEN End("ok") ELSE End("product-precise"))
  ELSE IF \E j \in 1..n : A.z[row][j] \notin {-1, 1} THEN End("signs")
  ELSE IF \E j \in 1..n : ~ProdIs(A.U, row, j, C.mul[row][j], <<A.z[row][j] * S, 0>>, C.ops[row][3] = 1) THEN End("product")
  ELSE IF (n <= 24 \/ row <= 4) /\ \E j \in 1..n : \E k \in 1..n :
            A.z[row][C.mul[j][k]] * A.z[j][k] # A.z[row][j] * A.z[C.mul[row][j]][k] THEN End("cocycle")
  ELSE row' = row + 1 /\ UNCHANGED <<ci, pc, verdict>>
\* A.q = (cos, n sin) of half the angle, A.norm = |n|^2, A.theta over 1024 of pi
Axis == pc = "axis" /\
  IF ~CartOf(C.lat, C.cart[1], C.ops[1][1]) \/ RDet(C.ops[1][1]) # 1 THEN End("BAD-lattice")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE IF ~(A.theta \in 0..1024) THEN End("angle-range")
  ELSE IF ~Near(A.norm, S, 8) THEN End("axis-norm")
  ELSE IF \E i \in 1..4 : Abs(A.q[i]) > S + 8 THEN End("axis")
  ELSE LET W == RotOfQuat(A.q) IN
       IF \E i \in 1..9 : ~Near(W[i], C.cart[1][i], CTOL) THEN End("axis")
       ELSE IF C.ops[1][1] = E9 /\ A.theta # 0 THEN End("axis-identity") ELSE End("ok")
Next == Start \/ Cover \/ Rows \/ Axis
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
==========================================================================
