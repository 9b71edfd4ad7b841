---------------------------- MODULE Primitive ----------------------------
(* Reduction to a primitive cell (C05).  c.kind:
   "matrix"    A.P (numerators over 6) for a Hall number; c.cents the pure translations (over Dt)
   "error"     an illegal Hall number must be rejected
   "transform" (R,t),k -> (P^-1 R P, P^-1 t), P^T k
   "dedup"     unique_primitive_symmetry, run as a machine, one operation at a time *)
EXTENDS Cryst, Judge
VARIABLES ci, pc, step, keys, map, verdict
vars == <<ci, pc, step, keys, map, verdict>>
C == Cases[ci]
A == C.ans
End(v) == pc' = "end" /\ verdict' = v /\ UNCHANGED <<ci, step, keys, map>> /\ Report(ci, C.id, v)
Init == ci \in 1..Len(Cases) /\ pc = "start" /\ step = 1 /\ keys = <<>> /\ map = <<>> /\ verdict = "none"

PDen == 6
Start == pc = "start" /\
  IF C.kind = "error" THEN IF A.status = "raises:ValueError" THEN End("ok") ELSE End("rejects")
  ELSE IF A.status # "ok" THEN End("answers")
  ELSE pc' = C.kind /\ UNCHANGED <<ci, step, keys, map, verdict>>

\* columns of P generate exactly the lattice of pure translations
Matrix == pc = "matrix" /\
  LET P == A.P
      col(j) == <<P[j], P[3+j], P[6+j]>>
      inLat(v) == \E q \in 1..Len(C.cents) :      \* v/6 = cents[q]/Dt mod 1
          LET w == C.cents[q] IN \A i \in 1..3 : (v[i]*C.Dt - w[i]*PDen) % (PDen*C.Dt) = 0
  IN IF \E j \in 1..9 : Abs(P[j]) > 100 THEN End("primitive-entries")
     ELSE IF \E j \in 1..3 : ~inLat(col(j)) THEN End("primitive-columns")
     ELSE IF Abs(RDet(P)) * Len(C.cents) # PDen*PDen*PDen THEN End("primitive-volume")
     ELSE End("ok")

\* P over Dp, translations of the answer over q*Dt, k of the answer over Dp*Dk
Transform == pc = "transform" /\
  LET P == C.P IN
  IF Len(A.R) # Len(C.ops) \/ Len(A.t) # Len(C.ops) THEN End("transform-length")
  ELSE IF \E i \in 1..Len(C.ops) : RMul(P, A.R[i]) # RMul(C.ops[i][1], P) THEN End("transform-rotation")
  ELSE IF \E i \in 1..Len(C.ops) : LET v == RApp(P, A.t[i])  t == C.ops[i][2] IN
            \E j \in 1..3 : v[j] # t[j] * C.Dp * C.q THEN End("transform-translation")
  ELSE IF A.k # RApp(RTrans(P), C.k) THEN End("transform-kpoint")
  ELSE IF \E i \in 1..Len(C.ops) : Dot3(A.k, A.t[i]) # Dot3(C.k, C.ops[i][2]) * C.Dp * C.q THEN End("transform-phase")
  ELSE End("ok")

\* the first operation with each (rotation, time reversal) is kept
Find(key) == LET s == {j \in 1..Len(keys) : keys[j] = key} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : TRUE
Dedup == pc = "dedup" /\
  IF step > Len(C.ops)
  THEN IF Len(A.R) # Len(keys) THEN End("unique-count")
       ELSE IF \E j \in 1..Len(keys) : A.R[j] # keys[j][1] THEN End("unique-rotations")
       ELSE IF A.map # map THEN End("unique-mapping")
       ELSE IF \E j \in 1..Len(keys) : LET first == CHOOSE i \in 1..Len(map) : map[i] = j /\ \A i2 \in 1..(i-1) : map[i2] # j
                                       IN ~V3Mod0(V3Sub(A.t[j], C.ops[first][2]), C.Dt) \/ \E x \in 1..3 : A.t[j][x] < 0 \/ A.t[j][x] > C.Dt
            THEN End("unique-translations")
       ELSE IF C.ncent > 0 /\ Len(keys) * C.ncent # Len(C.ops) THEN End("unique-order")
       ELSE End("ok")
  ELSE LET key == << C.ops[step][1], C.ops[step][3] >>  j == Find(key) IN
       IF j = 0 THEN keys' = Append(keys, key) /\ map' = Append(map, Len(keys) + 1) /\ step' = step + 1 /\ UNCHANGED <<ci, pc, verdict>>
       ELSE map' = Append(map, j) /\ step' = step + 1 /\ UNCHANGED <<ci, pc, keys, verdict>>
Next == Start \/ Matrix \/ Transform \/ Dedup
Spec == Init /\ [][Next]_vars
Verdicts == pc = "end" => verdict # "none"
==========================================================================
