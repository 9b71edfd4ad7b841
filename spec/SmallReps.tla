---------------------------- MODULE SmallReps ----------------------------
(* One call of an irrep entry point, as a state machine, bound to a recorded
   call.  The machine walks the same stages as the library: the request is
   submitted, answered, the little group of k is selected, the (spin)
   multiplier is fixed, the matrices are formed, they multiply according to the
   exact phases, lattice translations act as scalars, and the set is complete.
   At every stage the recorded observation is compared with what the
   specification derives from the request; the first stage that disagrees
   names the clause and ends the run ("reject").  Every case ends with a
   verdict: ok, a clause, or BAD (the case itself is not a legal request).

   A case c:  c.kind, c.id,
     c.Dt, c.Dk, c.k, c.ops = <<R, t, th>>...   the request, exact
     c.lops  = indices of the little group with certificate
     c.rows / c.mul : certified rows of the multiplication table of the little group
     c.ans : status; map; irreps; z; U; anti; ind; ncent                      *)
EXTENDS Cryst, Rep, Spin, Fine, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, pc, little, verdict
vars == <<ci, pc, little, verdict>>

C == Cases[ci]
A == C.ans
lop(a) == C.ops[little[a]]             \* a-th operation of the little group
nl == Len(little)
HasSpin == C.spin
Anti(a) == lop(a)[3] = 1
Unis == SelectSeq(Idx(nl), LAMBDA a : ~Anti(a))
LOps == TLCEval([a \in 1..nl |-> lop(a)])
N == C.Dk * C.Dt

(* ---- certificates: legality of the request ---- *)
CertOK ==
  /\ C.Dk * C.Dt < 32768
  /\ Len(C.mul) = Len(C.rows) /\ nl >= 1
  /\ LET L == LOps IN
     /\ \A q \in 1..Len(C.rows) : C.rows[q] \in 1..nl /\ Len(C.mul[q]) = nl /\
          \A b \in 1..nl : C.mul[q][b] \in 1..nl /\
             OpEqv(OpMul(L[C.rows[q]], L[b]), L[C.mul[q][b]], C.Dt)
     /\ \E e \in 1..nl : L[e][1] = E9 /\ L[e][3] = 0
\* rows generate the little group: the orbit of the identity under left multiplication is everything
RECURSIVE Reach(_, _)
Reach(seen, front) ==
  IF front = {} THEN seen
  ELSE LET nxt == { C.mul[q][b] : q \in 1..Len(C.rows), b \in front } \ seen
       IN Reach(seen \cup nxt, nxt)
GensOK == LET L == LOps  e == CHOOSE e \in 1..nl : L[e][1] = E9 /\ L[e][3] = 0 IN
          Cardinality(Reach({e}, {e})) = nl

(* ---- clauses ---- *)
Answered == A.status = "ok"
\* the operations handed back by a structure-level entry point are exactly the symmetry
\* operations of the structure in its cell (c.truth), each once; c.src is a certificate
OpsKnown == Len(C.truth) = 0 \/
   (Len(C.src) = Len(C.ops) /\ \A i \in 1..Len(C.ops) :
       C.src[i] \in 1..Len(C.truth) /\ OpEqv(C.ops[i], C.truth[C.src[i]], C.Dt))
OpsAll == Len(C.truth) = 0 \/ (Len(C.ops) = Len(C.truth) /\ Cardinality({C.src[i] : i \in 1..Len(C.ops)}) = Len(C.ops))
\* residuals of k must be reciprocal to the centring translations as well
Cents == SelectSeq(C.ops, LAMBDA o : o[1] = E9 /\ o[3] = 0)
\* c.tol > 0: the request allows residuals up to c.tol / c.Dk
Centred(x) == LET r == x % C.Dk IN IF 2*r > C.Dk THEN r - C.Dk ELSE r
Within(o) == LET q == ResidualK(o, C.k) IN \A i \in 1..3 : Abs(Centred(q[i])) <= C.tol
StabilisesAll(o) == IF C.tol > 0 THEN Within(o) ELSE Stabilises(o, C.k, C.Dk) /\
   LET q == ResidualK(o, C.k) IN \A c \in 1..Len(Cents) : Dot3(q, Cents[c][2]) % N = 0
LittleOK == A.map = little
\* the operations handed back are the selected ones, unchanged
LopsOK == A.lops = LOps
SpinShape == Len(A.z) = nl /\ (\A a \in 1..nl : Len(A.z[a]) = nl) /\ Shaped(A.U, nl) /\ Dim(A.U) = 2 /\ Bounded(A.U)
SpinValues == \A a \in 1..nl : \A b \in 1..nl : A.z[a][b] \in {-1, 1}
SpinIsFactor == \A q \in 1..Len(C.rows) : \A b \in 1..nl :
   ProdIs(A.U, C.rows[q], b, C.mul[q][b], <<A.z[C.rows[q]][b] * S, 0>>, Anti(C.rows[q]))
AntiOK == A.anti = [a \in 1..nl |-> IF Anti(a) THEN 1 ELSE 0]
ShapesOK == \A r \in 1..Len(A.irreps) : Shaped(A.irreps[r], nl)
BoundsOK == \A r \in 1..Len(A.irreps) : Bounded(A.irreps[r])
UnitOK == \A r \in 1..Len(A.irreps) : Unitary(A.irreps[r])
SpinSign(a, b) == IF HasSpin THEN A.z[a][b] ELSE 1
LawOK ==
  LET L == LOps  reps == A.irreps IN
  \A q \in 1..Len(C.rows) : \A b \in 1..nl :
    LET a   == C.rows[q]
        c   == C.mul[q][b]
        res == V3Sub(V3Add(L[a][2], RApp(L[a][1], L[b][2])), L[c][2])
        ph0 == Cis(-Dot3(C.k, res), N)
        s   == SpinSign(a, b)
        ph  == << s*ph0[1], s*ph0[2] >>
    IN \A r \in 1..Len(reps) : ProdIs(reps[r], a, b, c, ph, Anti(a))
TransOK ==
  LET L == LOps IN
  \A a \in 1..nl : L[a][1] = E9 /\ L[a][3] = 0 =>
     \A r \in 1..Len(A.irreps) : IsScalar(A.irreps[r], a, Cis(-Dot3(C.k, L[a][2]), N))
\* the same law and unitarity to 2e-6, on samples <<irrep r, row q, column b, phase m/24>> of the matrices
FineSampleOK(f) ==
  LET L == LOps  a == C.rows[f.q]  b == f.b  c == C.mul[f.q][f.b]  R == A.irreps[f.r]
      res == V3Sub(V3Add(L[a][2], RApp(L[a][1], L[b][2])), L[c][2])
  IN /\ f.r \in 1..Len(A.irreps) /\ f.q \in 1..Len(C.rows) /\ f.b \in 1..nl
     /\ (24 * ((-Dot3(C.k, res)) % N) - f.m * N) % (24 * N) = 0
FineOK(f) ==
  LET a == C.rows[f.q]  b == f.b  c == C.mul[f.q][f.b]  R == A.irreps[f.r]  d == Dim(A.irreps[f.r])
  IN /\ WellFormed(f.x, d) /\ WellFormed(f.y, d) /\ WellFormed(f.z, d)
     /\ SameAs(f.x, R.re[a], R.im[a]) /\ SameAs(f.y, R.re[b], R.im[b]) /\ SameAs(f.z, R.re[c], R.im[c])
     /\ FineUnitary(f.x, d)
     /\ FineProd(f.x, f.y, f.z, f.m, SpinSign(a, b), Anti(a), d)
Chis == TLCEval([r \in 1..Len(A.irreps) |-> Chi(A.irreps[r])])
\* number of pure lattice translations among the little group: each coset appears that often
NCent == Len(SelectSeq(Unis, LAMBDA a : lop(a)[1] = E9))
\* expected squared norm of the restriction to the time-preserving operations
HasAnti == Len(Unis) < nl
NormOf(r, x) == Mult(x, x, Unis)
IrredOK ==
  LET X == Chis  u == Unis IN
  \A r \in 1..Len(X) : IF HasAnti THEN NormOf(r, X[r]) \in {1, 2, 4} /\ MultExact(X[r], X[r], u)
                       ELSE DotIs(X[r], X[r], u, 1)
InequivOK ==
  LET X == Chis  u == Unis IN
  \A r \in 1..Len(X) : \A s \in 1..Len(X) : r < s => DotIs(X[r], X[s], u, 0)
CompleteOK ==
  LET X == Chis IN
  \* d^2 over the squared norm of the restriction, summed, is the number of time-preserving cosets
  SumSeq([r \in 1..Len(X) |-> (4 * Dim(A.irreps[r]) * Dim(A.irreps[r])) \div
             (IF HasAnti THEN NormOf(r, X[r]) ELSE 1)]) * NCent = 4 * Len(Unis)
NormOfInd(q) == IF q = 1 THEN 1 ELSE IF q = 0 THEN 2 ELSE 4
IndOK ==
  IF HasAnti
  THEN /\ Len(A.ind) = Len(A.irreps)
       /\ \A r \in 1..Len(A.ind) : A.ind[r] \in {-1, 0, 1}
       /\ LET X == Chis IN \A r \in 1..Len(X) : NormOf(r, X[r]) = NormOfInd(A.ind[r])
  ELSE A.ind = <<>>

(* ---- the machine ---- *)
Goto(p) == pc' = p /\ UNCHANGED <<ci, little, verdict>>
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<ci, little>> /\ PrintT("V|" \o ToString(ci) \o "|" \o C.id \o "|" \o v)
Stage(p, okay, clause, next) == pc = p /\ IF okay THEN next ELSE End(clause)

Init == ci \in 1..Len(Cases) /\ pc = "submit" /\ little = <<>> /\ verdict = "none"

Submit == pc = "submit" /\ IF ~Answered THEN End("answers")
          ELSE IF ~OpsKnown THEN End("not-a-symmetry")
          ELSE IF ~OpsAll THEN End("operations-missing")
          ELSE Goto("select")
Select == /\ pc = "select"
          /\ little' = SelectSeq(Idx(Len(C.ops)), LAMBDA i : StabilisesAll(C.ops[i]))
          /\ pc' = "littlegroup" /\ UNCHANGED <<ci, verdict>>
Little == pc = "littlegroup" /\
          IF ~LittleOK THEN End("little-group")
          ELSE IF C.wantlops /\ ~LopsOK THEN End("little-operations")
          ELSE IF ~C.wantreps THEN End("ok")
          ELSE IF ~CertOK THEN End("BAD-cert")
          ELSE IF ~GensOK THEN End("BAD-gens")
          ELSE Goto(IF HasSpin THEN "multiplier" ELSE "matrices")
Multiplier == pc = "multiplier" /\
          IF ~SpinShape THEN End("spin-shape")
          ELSE IF ~SpinValues THEN End("spin-values")
          ELSE IF ~AntiOK THEN End("anti-linear-flags")
          ELSE IF Len(C.lat) > 0 /\ ~LatticeCert(C.lat, C.cart, LOps) THEN End("BAD-lattice")
          ELSE IF Len(C.lat) > 0 /\ ~CoversAll(A.U, C.cart, LOps) THEN End("spin-cover")
          ELSE IF ~SpinIsFactor THEN End("spin-factor-system")
          ELSE Goto("matrices")
Matrices == pc = "matrices" /\
          IF ~ShapesOK THEN End("shape")
          ELSE IF ~BoundsOK THEN End("bounded")
          ELSE IF ~UnitOK THEN End("unitary")
          ELSE Goto("law")
Law == pc = "law" /\
          IF C.wantlaw /\ ~LawOK THEN End("law")
          ELSE IF C.wantlaw /\ ~TransOK THEN End("translations")
          ELSE IF \E f \in 1..Len(A.fine) : ~FineSampleOK(A.fine[f]) THEN End("BAD-fine")
          ELSE IF \E f \in 1..Len(A.fine) : ~FineOK(A.fine[f]) THEN End("law-precise")
          ELSE IF C.wantcomplete THEN Goto("complete") ELSE End("ok")
Complete == pc = "complete" /\
          IF ~IrredOK THEN End("irreducible")
          ELSE IF ~InequivOK THEN End("inequivalent")
          ELSE IF ~CompleteOK THEN End("complete")
          ELSE IF C.wantind /\ ~IndOK THEN End("indicators")
          ELSE End("ok")
Next == Submit \/ Select \/ Little \/ Multiplier \/ Matrices \/ Law \/ Complete
Spec == Init /\ [][Next]_vars
\* every behaviour ends with a verdict (checked by the runner too: one V line per case)
Verdicts == pc = "end" => verdict # "none"
==========================================================================
