----------------------------- MODULE Intertwine -----------------------------
(* get_intertwiner, is_equivalent_irrep, frobenius_schur_indicator and
   get_physically_irrep (C17) on certified (projective) representations C.rep1, C.rep2.
   "intertwiner": A.u   "equivalent": A.eq   "indicator": A.fs or a ValueError
   "physical":    C.indicator (recomputed here), A.real                        *)
EXTENDS GroupRep
VARIABLES ci, pc, verdict
vars == <<ci, pc, verdict>>
C == Cases[ci]
A == C.ans
n == Len(C.ops)
All == Idx(n)
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED ci /\ Report(ci, C.id, v)
Goto(p) == pc' = p /\ UNCHANGED <<ci, verdict>>
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ verdict = "none"
Two == C.kind \in {"intertwiner", "equivalent"}
\* multipliers +1 and -1 only: the Frobenius-Schur average is then an integer for every representation
Signs == \A q \in 1..Len(C.mu) : \A b \in 1..Len(C.mu[q]) : (2 * C.mu[q][b]) % C.muden = 0
\* all entries of the table are needed for the average over g*g
d == Dim(C.rep1)
dd == Idx(d)
TrSq(g) == LET x == C.rep1.re[g]  y == C.rep1.im[g] IN
  << (FoldLeft(LAMBDA z, i : FoldLeft(LAMBDA w, j : w + x[(i-1)*d+j]*x[(j-1)*d+i] - y[(i-1)*d+j]*y[(j-1)*d+i], z, dd), 0, dd) + S \div 2) \div S,
     (FoldLeft(LAMBDA z, i : FoldLeft(LAMBDA w, j : w + x[(i-1)*d+j]*y[(j-1)*d+i] + y[(i-1)*d+j]*x[(j-1)*d+i], z, dd), 0, dd) + S \div 2) \div S >>
FSSum == FoldLeft(LAMBDA z, g : << z[1] + TrSq(g)[1], z[2] + TrSq(g)[2] >>, <<0, 0>>, All)
FSOf(t) == (t[1] + (n*S) \div 2) \div (n*S)
FSExact(t) == Near(t[1], FSOf(t)*n*S, (n*S) \div 8) /\ Near(t[2], 0, (n*S) \div 8)
Irreducible(r) == \A x \in {Chi(r)} : DotIs(x, x, All, 1)
Equal(r, t) == \A x \in {Chi(r)} : \A y \in {Chi(t)} : DotIs(x, y, All, 1)
Start == pc = "start" /\
  IF ~RowsOK(C) \/ ~Generates(C) THEN End("BAD-cert")
  ELSE IF ~LegalRep(C, C.rep1) \/ (Two /\ ~LegalRep(C, C.rep2)) THEN End("BAD-representation")
  ELSE IF C.kind # "indicator" /\ ~Irreducible(C.rep1) THEN End("BAD-reducible")
  ELSE IF Two /\ ~Irreducible(C.rep2) THEN End("BAD-reducible")
  ELSE IF C.kind = "intertwiner" /\ (Dim(C.rep1) # Dim(C.rep2) \/ ~Equal(C.rep1, C.rep2)) THEN End("BAD-inequivalent")
  ELSE IF C.kind \in {"indicator", "physical"} /\ ~Signs THEN End("BAD-multipliers")
  ELSE IF C.kind = "indicator" THEN Goto("indicator")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE Goto(C.kind)

(* ---- intertwiner ---- *)
MulS(x, y) == << (x[1]*y[1] - x[2]*y[2] + S \div 2) \div S, (x[1]*y[2] + x[2]*y[1] + S \div 2) \div S >>
\* determinant by expansion along row a over the columns in cols (increasing)
RECURSIVE Det(_, _)
Det(a, cols) ==
  IF Len(cols) = 0 THEN <<S, 0>>
  ELSE FoldLeft(LAMBDA z, q :
         LET col == cols[q]
             m == MulS(<< A.u.re[1][(a-1)*d+col], A.u.im[1][(a-1)*d+col] >>, Det(a + 1, SubSeq(cols, 1, q-1) \o SubSeq(cols, q+1, Len(cols))))
             sg == IF q % 2 = 1 THEN 1 ELSE -1
         IN << z[1] + sg*m[1], z[2] + sg*m[2] >>, <<0, 0>>, Idx(Len(cols)))
DetTol == IF d <= 3 THEN 40 ELSE IF d = 4 THEN 120 ELSE 400
UShape == A.u.n = 1 /\ A.u.d = <<d, d>> /\ Bounded(A.u)
\* rep1(g) U = U rep2(g)
Commutes(g) == \A a \in 1..d : \A b \in 1..d :
  LET xr == C.rep1.re[g]  xi == C.rep1.im[g]  yr == C.rep2.re[g]  yi == C.rep2.im[g]  ur == A.u.re[1]  ui == A.u.im[1] IN
  /\ Near(FoldLeft(LAMBDA z, c : z + xr[(a-1)*d+c]*ur[(c-1)*d+b] - xi[(a-1)*d+c]*ui[(c-1)*d+b], 0, dd),
          FoldLeft(LAMBDA z, c : z + ur[(a-1)*d+c]*yr[(c-1)*d+b] - ui[(a-1)*d+c]*yi[(c-1)*d+b], 0, dd), TOL)
  /\ Near(FoldLeft(LAMBDA z, c : z + xr[(a-1)*d+c]*ui[(c-1)*d+b] + xi[(a-1)*d+c]*ur[(c-1)*d+b], 0, dd),
          FoldLeft(LAMBDA z, c : z + ur[(a-1)*d+c]*yi[(c-1)*d+b] + ui[(a-1)*d+c]*yr[(c-1)*d+b], 0, dd), TOL)
\* the same to 4e-6 for one operation: A.fine = [g, x = rep1(g), y = rep2(g), u]
FineCommutes == LET f == A.fine  g == f.g IN
  /\ WellFormed(f.x, d) /\ WellFormed(f.y, d) /\ WellFormed(f.u, d)
  /\ SameAs(f.x, C.rep1.re[g], C.rep1.im[g]) /\ SameAs(f.y, C.rep2.re[g], C.rep2.im[g]) /\ SameAs(f.u, A.u.re[1], A.u.im[1])
  /\ FineUnitary(f.u, d)
  /\ FineEq(FineMM(f.x, f.u, d, d, d), FineMM(f.u, f.y, d, d, d), 2*FTOL)
Samples == IF "fine" \in DOMAIN A THEN A.fine ELSE <<>>
Intertwiner == pc = "intertwiner" /\
  IF ~UShape THEN End("intertwiner-shape")
  ELSE IF ~UnitaryMat(A.u.re[1], A.u.im[1], d) THEN End("intertwiner-unitary")
  ELSE IF \E q \in 1..Len(C.rows) : ~Commutes(C.rows[q]) THEN End("intertwines")
  ELSE IF "fine" \in DOMAIN A /\ ~FineCommutes THEN End("intertwines-precise")
  ELSE IF \E det \in {Det(1, dd)} : ~Near(det[1], S, DetTol) \/ ~Near(det[2], 0, DetTol) THEN End("determinant")
  ELSE End("ok")
Equivalent == pc = "equivalent" /\
  IF A.eq # (IF Equal(C.rep1, C.rep2) THEN 1 ELSE 0) THEN End("equivalence") ELSE End("ok")

(* ---- indicators ---- *)
Indicator == pc = "indicator" /\ \E t \in {FSSum} :
  IF ~FSExact(t) THEN End("BAD-average")
  ELSE IF FSOf(t) > 1 THEN End(IF A.status = "raises:ValueError" THEN "ok" ELSE "indicator-reducible")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE IF A.fs # FSOf(t) THEN End("indicator-value")
  ELSE End("ok")
Physical == pc = "physical" /\ \E t \in {FSSum} :
  IF ~FSExact(t) \/ FSOf(t) # C.indicator THEN End("BAD-indicator")
  ELSE LET e == IF C.indicator = 1 THEN d ELSE 2*d IN
    IF ~Shaped(A.real, n) THEN End("real-shape")
    ELSE IF Dim(A.real) # e THEN End("real-dimension")
    ELSE IF ~Bounded(A.real) THEN End("real-bounded")
    ELSE IF \E g \in 1..n : \E q \in 1..(e*e) : A.real.im[g][q] # 0 THEN End("real")
    ELSE IF ~Unitary(A.real) THEN End("real-orthogonal")
    ELSE IF ~IsRep(C, A.real) THEN End("real-law")
    ELSE IF \E f \in 1..Len(Samples) : ~LawSampleLegal(C, Samples[f]) THEN End("BAD-fine")
    ELSE IF \E f \in 1..Len(Samples) : ~LawSampleOK(C, A.real, Samples[f]) THEN End("real-law-precise")
    ELSE IF \E x \in {Chi(C.rep1)} : \E y \in {Chi(A.real)} : \E g \in 1..n :
              ~Near(y[g][1], IF C.indicator = 1 THEN x[g][1] ELSE 2*x[g][1], 8) THEN End("real-character")
    ELSE End("ok")
Next == Start \/ Intertwiner \/ Equivalent \/ Indicator \/ Physical
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
============================================================================
