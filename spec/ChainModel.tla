---------------------------- MODULE ChainModel ----------------------------
(* The algorithm of enumerate_unitary_irreps_from_solvable_group_chain as a
   state machine in exact arithmetic.  Representations are matrices over the
   field of q elements, q = 1 modulo the exponent of the group times the
   denominator of the factor system, so that every irreducible representation
   is defined over the field and characters keep their orthogonality.
   State: the chain so far (generators, last absorbed last), the subgroup it
   generates and the irreps of the subgroup found.  A step absorbs any generator
   of prime order that normalises the subgroup, either
     - extending an irrep equal to its conjugate in p ways, with the intertwiner
       scaled by a p-th root, or
     - inducing an irrep that is not.
   Checked: in every reachable state, whatever chain was taken, the matrices obey
   the law of the factor system and are irreducible, inequivalent and complete.
   Case: table (1-based), mu exponents over muden, q, root (an element of order
   muden).  With Pick = "one" ("two"), of the generators leading to the same subgroup
   only the least (the least and the greatest) is taken.  With Tell, every chain is printed and
   replayed into the library (C23).                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils
CONSTANT Pick, Tell
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, path, sub, reps
vars == <<ci, path, sub, reps>>
C == Cases[ci]
q == C.q
n == Len(C.table)
T(a, b) == C.table[a][b]
E == C.e
Idx(m) == [i \in 1..m |-> i]

(* ---- the field ---- *)
RECURSIVE Pow(_, _)
Pow(x, m) == IF m = 0 THEN 1 ELSE LET h == Pow((x * x) % q, m \div 2) IN IF m % 2 = 1 THEN (h * x) % q ELSE h
Inv(x) == Pow(x, q - 2)
Mu(a, b) == Pow(C.root, C.mu[a][b])
IsField == q > 2 /\ (\A x \in 2..(q-1) : x * x > q \/ q % x # 0) /\ n % q # 0 /\ q < 10000
RootOK == Pow(C.root, C.muden) = 1 /\ \A x \in 1..(C.muden - 1) : Pow(C.root, x) # 1

(* ---- matrices: flat, row by row ---- *)
MMul(A, B, d) == [x \in 1..(d*d) |-> LET i == (x-1) \div d  k == (x-1) % d IN FoldLeft(LAMBDA z, j : (z + A[i*d+j] * B[(j-1)*d+k+1]) % q, 0, Idx(d))]
MScale(c, A) == [x \in 1..Len(A) |-> (c * A[x]) % q]
MOne(d) == [x \in 1..(d*d) |-> IF (x-1) \div d = (x-1) % d THEN 1 ELSE 0]
MTr(A, d) == FoldLeft(LAMBDA z, j : (z + A[(j-1)*d+j]) % q, 0, Idx(d))
RECURSIVE MPow(_, _, _)
MPow(A, m, d) == IF m = 0 THEN MOne(d) ELSE MMul(A, MPow(A, m-1, d), d)

(* ---- the group ---- *)
InvOf(g) == CHOOSE h \in 1..n : T(g, h) = E
RECURSIVE GPow(_, _)
GPow(g, m) == IF m = 0 THEN E ELSE T(g, GPow(g, m-1))
Order(g) == CHOOSE m \in 1..n : GPow(g, m) = E /\ \A x \in 1..(m-1) : GPow(g, x) # E
Prime(m) == m > 1 /\ \A x \in 2..(m-1) : m % x # 0
Cand == { g \in (1..n) \ sub : Prime(Order(g)) /\ \A h \in sub : T(T(g, h), InvOf(g)) \in sub }
With(g) == { T(GPow(g, m), h) : m \in 0..(Order(g)-1), h \in sub }
Chosen == IF Pick = "all" THEN Cand
          ELSE LET cand == TLCEval(Cand)  w == TLCEval([g \in cand |-> With(g)]) IN
               { g \in cand : (\A x \in cand : w[x] = w[g] => x >= g) \/ (Pick = "two" /\ \A x \in cand : w[x] = w[g] => x <= g) }

(* ---- one step for one irrep r = [d, m], m a function on the subgroup ---- *)
InvMat(r, h) == MScale(Inv(Mu(h, InvOf(h))), r.m[InvOf(h)])
Overlap(r, s) == FoldSet(LAMBDA h, z : (z + MTr(r.m[h], r.d) * MTr(InvMat(s, h), s.d)) % q, 0, DOMAIN r.m)
\* D(g)^-1 D(h) D(g) in terms of the irrep
ConjBy(r, g) == [d |-> r.d, m |-> TLCEval([h \in sub |-> LET k == T(T(InvOf(g), h), g) IN MScale((Mu(h, g) * Inv(Mu(g, k))) % q, r.m[k])])]
\* sum over h of r(h) E_ab s(h)^-1, for the first a, b where it does not vanish
Twist(r, s) ==
  LET d == r.d
      u(a, b) == TLCEval([x \in 1..(d*d) |-> LET i == (x-1) \div d  j == (x-1) % d IN FoldSet(LAMBDA h, z : (z + r.m[h][i*d+a] * InvMat(s, h)[(b-1)*d+j+1]) % q, 0, sub)])
      RECURSIVE First(_)
      First(x) == LET v == u(1 + (x \div d), 1 + (x % d)) IN IF \E y \in 1..(d*d) : v[y] # 0 THEN v ELSE First(x + 1)
  IN First(0)
\* multiplier of g^m from g g^(m-1): D(g)^m = Acc(g, m) D(g^m)
RECURSIVE Acc(_, _)
Acc(g, m) == IF m = 0 THEN 1 ELSE (Mu(g, GPow(g, m-1)) * Acc(g, m-1)) % q
\* the exponent m and h in the subgroup with x = g^m h
Split(x, g, p) == CHOOSE y \in (0..(p-1)) \X sub : T(GPow(g, y[1]), y[2]) = x
Extend(r, g, p, new) ==
  LET U == TLCEval(Twist(r, TLCEval(ConjBy(r, g))))
      c == MPow(U, p, r.d)[1]                         \* U^p is this times the unit matrix
      want == Acc(g, p)                               \* D(g)^p = want D(1)
      lam == { x \in 1..(q-1) : (Pow(x, p) * c) % q = want }
  IN { [d |-> r.d, m |-> TLCEval([x \in new |-> LET y == Split(x, g, p) IN
          MScale(Inv((Acc(g, y[1]) * Mu(GPow(g, y[1]), y[2])) % q), MMul(MPow(MScale(l, U), y[1], r.d), r.m[y[2]], r.d))])] : l \in lam }
Induce(r, g, p, new) ==
  LET d == r.d  D == r.d * p
      block(x, j) == Split(T(x, GPow(g, j)), g, p)
      entry(x, i, j, a, b) == LET y == block(x, j) IN
        IF y[1] # i THEN 0 ELSE LET up == (Acc(g, j) * Mu(x, GPow(g, j))) % q  down == (Acc(g, i) * Mu(GPow(g, i), y[2])) % q IN (((up * Inv(down)) % q) * r.m[y[2]][(a-1)*d+b]) % q
  IN [d |-> D, m |-> TLCEval([x \in new |-> TLCEval([z \in 1..(D*D) |->
        LET i == (z-1) \div D  j == (z-1) % D IN entry(x, i \div d, j \div d, 1 + (i % d), 1 + (j % d))])])]
\* irreps met in the orbits of others are left out
RECURSIVE Grow(_, _, _, _, _)
Grow(todo, g, p, new, acc) ==
  IF todo = <<>> THEN acc
  ELSE LET r == Head(todo) IN
    IF Overlap(r, ConjBy(r, g)) # 0 THEN Grow(Tail(todo), g, p, new, acc \o SetToSeq(Extend(r, g, p, new)))
    ELSE LET orbit == [m \in 1..(p-1) |-> TLCEval(ConjBy(r, GPow(g, m)))]
             rest == SelectSeq(Tail(todo), LAMBDA s : s.d # r.d \/ \A m \in 1..(p-1) : Overlap(orbit[m], s) = 0)
         IN Grow(rest, g, p, new, Append(acc, Induce(r, g, p, new)))

Init == ci \in 1..Len(Cases) /\ path = <<>> /\ sub = {E} /\ reps = << [d |-> 1, m |-> (E :> <<1>>)] >>
Absorb(g) ==
  /\ path' = Append(path, g)
  /\ sub' = With(g)
  /\ reps' = TLCEval(Grow(reps, g, Order(g), With(g), <<>>))
  /\ UNCHANGED ci
  /\ IF Tell THEN PrintT("B|" \o ToJson([case |-> C.id, chain |-> Append(path, g), dims |-> [i \in 1..Len(reps') |-> reps'[i].d]])) ELSE TRUE
Next == \E g \in Chosen : Absorb(g)
Spec == Init /\ [][Next]_vars

Setting == IsField /\ RootOK
Subgroup == E \in sub /\ \A a \in sub : \A b \in sub : T(a, b) \in sub
Law == \A i \in 1..Len(reps) : \A g \in {path[x] : x \in 1..Len(path)} : \A h \in sub :
   MMul(reps[i].m[g], reps[i].m[h], reps[i].d) = MScale(Mu(g, h), reps[i].m[T(g, h)])
Orthogonal == \A i \in 1..Len(reps) : \A j \in i..Len(reps) : Overlap(reps[i], reps[j]) = (IF i = j THEN Cardinality(sub) % q ELSE 0)
Complete == FoldLeft(LAMBDA z, r : z + r.d * r.d, 0, reps) = Cardinality(sub)
Divides == \A i \in 1..Len(reps) : Cardinality(sub) % reps[i].d = 0
===========================================================================
