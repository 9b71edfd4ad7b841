------------------------------ MODULE Numeric ------------------------------
(* Numeric helpers (C22), each against its definition.  c.kind:
   "nroot"     z = (q/64)^k exp(2 pi i m/N), A = k-th root of z at scale S
   "mode"      exact (Gaussian) integer tensor and matrices
   "prime"     A.vals[x] answers for c.lo, c.lo + 1, ...; "primes" for c.xs (below 160^2)
   "intarray"  entries k + s 10^-e against atol 10^-a and rtol 10^-r
   "tuple"     integer matrix off by less than 0.4
   "hall"      tabulated operations; "system", "centering" derived from them
   "grassmann" bases of two subspaces with known principal angles m_i/N turns        *)
EXTENDS Cryst, Judge
VARIABLES ci, pc, verdict
vars == <<ci, pc, verdict>>
C == Cases[ci]
A == C.ans
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED ci /\ Report(ci, C.id, v)
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ verdict = "none"
Start == pc = "start" /\
  IF C.kind = "error" THEN End(IF A.status = "raises:ValueError" THEN "ok" ELSE "rejects")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE pc' = C.kind /\ UNCHANGED <<ci, verdict>>

(* ---- roots ---- *)
\* the argument of z in turns over N, in (-N/2, N/2]
Arg == LET r == C.m % C.N IN IF 2*r > C.N THEN r - C.N ELSE r
RootIs(a) == LET w == Cis(a, C.N * C.k) IN
   Near(A.re, (C.q * w[1]) \div 64, 12) /\ Near(A.im, (C.q * w[2]) \div 64, 12)
NRoot == pc = "nroot" /\
  IF C.q = 0 THEN End(IF A.re = 0 /\ A.im = 0 THEN "ok" ELSE "root")
  ELSE IF RootIs(Arg) \/ (2*Arg = C.N /\ RootIs(-Arg)) THEN End("ok") ELSE End("root")

(* ---- mode products ---- *)
Prod(s) == FoldLeft(LAMBDA z, x : z * x, 1, s)
\* T (flat over dims ds) contracted on axis a with M (flat ds[a] x b): entries <<re, im>>
Contract(T, ds, a, M, b) ==
  LET m == ds[a]  right == Prod(SubSeq(ds, a + 1, Len(ds)))  left == Prod(SubSeq(ds, 1, a - 1)) IN
  TLCEval([q \in 1..(left*b*right) |->
     LET z == q - 1  r == z % right  j == (z \div right) % b  l == z \div (right*b) IN
     FoldLeft(LAMBDA acc, i : LET t == T[(l*m + i - 1)*right + r + 1]  u == M[(i-1)*b + j + 1] IN
        << acc[1] + t[1]*u[1] - t[2]*u[2], acc[2] + t[1]*u[2] + t[2]*u[1] >>, <<0, 0>>, Idx(m))])
RECURSIVE ModeDot(_, _, _)
ModeDot(T, ds, a) == IF a > Len(C.cols) THEN T
   ELSE ModeDot(TLCEval(Contract(T, ds, a, C.mats[a], C.cols[a])), TLCEval([ds EXCEPT ![a] = C.cols[a]]), a + 1)
Mode == pc = "mode" /\
  IF A.shape # C.cols THEN End("mode-shape")
  ELSE IF A.flat # ModeDot(C.tensor, C.dims, 1) THEN End("mode-entry") ELSE End("ok")

(* ---- primes and integers ---- *)
IsPrime(x) == \A y \in 2..(x - 1) : x % y # 0
Prime == pc = "prime" /\
  IF \E q \in 1..Len(A.vals) : A.vals[q] # (IF IsPrime(C.lo + q - 1) THEN 1 ELSE 0) THEN End("prime") ELSE End("ok")
Primes == pc = "primes" /\
  IF Len(A.vals) # Len(C.xs) \/ \E q \in 1..Len(C.xs) : A.vals[q] # (IF \A y \in 2..160 : y*y > C.xs[q] \/ C.xs[q] % y # 0 THEN 1 ELSE 0) THEN End("prime") ELSE End("ok")
Digits(k) == LET a == Abs(k) IN IF a = 0 THEN 0 ELSE IF a < 10 THEN 1 ELSE IF a < 100 THEN 2 ELSE IF a < 1000 THEN 3 ELSE IF a < 10000 THEN 4 ELSE 5
\* an entry <<k, s, e>> is k + s 10^-e ; clear cases only
Inside(v) == v[2] = 0 \/ v[3] >= C.atol + 1 \/ (v[1] # 0 /\ v[3] >= C.rtol + 2 - Digits(v[1]))
Outside(v) == v[2] # 0 /\ v[3] <= C.atol - 1 /\ v[3] <= C.rtol - Digits(v[1]) - 1
IntArray == pc = "intarray" /\
  IF \E q \in 1..Len(C.values) : ~Inside(C.values[q]) /\ ~Outside(C.values[q]) THEN End("BAD-ambiguous")
  ELSE IF A.value # (IF \A q \in 1..Len(C.values) : Inside(C.values[q]) THEN 1 ELSE 0) THEN End("integer-array") ELSE End("ok")
Tuple == pc = "tuple" /\ IF A.tuples # 1 THEN End("tuple-type") ELSE IF A.value # C.value THEN End("tuple-value") ELSE End("ok")

(* ---- tables ---- *)
OpSet(L) == { << L[q][1], L[q][2] >> : q \in 1..Len(L) }
Hall == pc = "hall" /\
  IF Len(A.ops) # Len(C.ops) \/ OpSet(A.ops) # OpSet(C.ops) THEN End("hall-operations") ELSE End("ok")
Rots == { C.ops[q][1] : q \in 1..Len(C.ops) }
Tr9(r) == r[1] + r[5] + r[9]
Det9(r) == r[1]*(r[5]*r[9] - r[6]*r[8]) - r[2]*(r[4]*r[9] - r[6]*r[7]) + r[3]*(r[4]*r[8] - r[5]*r[7])
Count(t) == Cardinality({ r \in Rots : r # E9 /\ Tr9(r)*Det9(r) = t })
\* proper parts: trace 2 sixfold, 1 fourfold, 0 threefold, -1 twofold, 3 identity/inversion
SystemOf == IF Count(0) >= 8 THEN "cubic" ELSE IF Count(2) > 0 THEN "hexagonal" ELSE IF Count(0) > 0 THEN "trigonal"
   ELSE IF Count(1) > 0 THEN "tetragonal" ELSE IF Count(-1) >= 3 THEN "orthorhombic" ELSE IF Count(-1) > 0 THEN "monoclinic" ELSE "triclinic"
System == pc = "system" /\ IF A.value # SystemOf THEN End("crystal-system") ELSE End("ok")
Cent == { C.ops[q][2] : q \in { x \in 1..Len(C.ops) : C.ops[x][1] = E9 } }
H == C.Dt \div 2
T1 == C.Dt \div 3
CentOf == IF Cent = {<<0,0,0>>} THEN "P" ELSE IF Cent = {<<0,0,0>>, <<0,H,H>>} THEN "A" ELSE IF Cent = {<<0,0,0>>, <<H,0,H>>} THEN "B"
   ELSE IF Cent = {<<0,0,0>>, <<H,H,0>>} THEN "C" ELSE IF Cent = {<<0,0,0>>, <<H,H,H>>} THEN "I"
   ELSE IF Cent = {<<0,0,0>>, <<0,H,H>>, <<H,0,H>>, <<H,H,0>>} THEN "F"
   ELSE IF Cent = {<<0,0,0>>, <<2*T1,T1,T1>>, <<T1,2*T1,2*T1>>} THEN "R" ELSE "?"
Centering == pc = "centering" /\ IF A.value # CentOf THEN End("centering") ELSE End("ok")

(* ---- Grassmann distances, at scale 4096; angles C.angles[i] over C.N turns, all in [0, 1/4] ---- *)
MaxAngle == FoldLeft(LAMBDA z, x : IF x > z THEN x ELSE z, 0, C.angles)
\* 2 pi * 4096 = 25735.927
Rad(m) == (25736 * m) \div C.N
Grassmann == pc = "grassmann" /\
  IF C.ord = "min" THEN IF Near(A.value, Cis(MaxAngle, C.N)[2] \div 2, 6) THEN End("ok") ELSE End("min-correlation")
  ELSE LET ss == FoldLeft(LAMBDA z, m : z + Rad(m)*Rad(m), 0, C.angles)  lhs == A.value*A.value*Len(C.angles) IN
       IF A.value > 7000 THEN End("projection-metric")
       ELSE IF Near(lhs, ss, 24*A.value*Len(C.angles) + 400) THEN End("ok") ELSE End("projection-metric")
Next == Start \/ NRoot \/ Mode \/ Prime \/ Primes \/ IntArray \/ Tuple \/ Hall \/ System \/ Centering \/ Grassmann
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
============================================================================
