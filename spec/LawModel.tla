----------------------------- MODULE LawModel -----------------------------
(* The laws which the properties state are consistent, for whole families of
   groups and all k-vectors of a grid.  A state is a group (closed under
   composition one generator at a time, so that every intermediate subgroup is
   also visited), a k-vector and a choice of lattice representatives.
     Closed        the little group is a group
     Associative   Gamma(g1)Gamma(g2) = e^{..} Gamma(g12) is associative,
                   conjugating after anti-linear operations   (C01, C09, C10)
     Cocycle       so is the law of D = e^{ik.w} Gamma with the multipliers
                   e^{-i g.w}, and both laws agree            (C01, C10)
     Halved        the time-preserving operations are a subgroup of index
                   at most two, of one index for all a0        (C10, C16)
     Squares       a0^2 preserves time and its multiplier is a
                   well-defined sign or phase                  (C10, C17)
     Translations  an operation and its translate differ by e^{-ik.t} only
                   when k is stabilised                        (C04, C11)     *)
EXTENDS Frames
CONSTANTS Dt, Dk, Grid, Shifts
C2z == <<-1,0,0, 0,-1,0, 0,0,1>>
C2x == <<1,0,0, 0,-1,0, 0,0,-1>>
C2d == <<0,1,0, 1,0,0, 0,0,-1>>
Mx  == <<-1,0,0, 0,1,0, 0,0,1>>
Mh  == <<0,1,0, 1,0,0, 0,0,1>>
C4z == <<0,-1,0, 1,0,0, 0,0,1>>
S4z == <<0,1,0, -1,0,0, 0,0,-1>>
C3h == <<0,-1,0, 1,-1,0, 0,0,1>>
C6z == <<1,-1,0, 1,0,0, 0,0,1>>
C3d == <<0,0,1, 1,0,0, 0,1,0>>
Inv == RNeg(E9)
O3 == <<0,0,0>>
h == Dt \div 2
q == Dt \div 4
t3 == Dt \div 3
Norm(o) == << o[1], <<o[2][1] % Dt, o[2][2] % Dt, o[2][3] % Dt>>, o[3] >>
\* generators, applied in order; every prefix generates a subgroup
Families == <<
  << <<C2z, <<0,0,h>>, 0>>, <<C2x, <<h,h,0>>, 0>>, <<Inv, O3, 0>>, <<E9, O3, 1>> >>,       \* P2_1 2_1 2_1 -> Pbca-like, grey
  << <<C4z, <<0,0,q>>, 0>>, <<C2x, <<0,0,0>>, 0>>, <<E9, O3, 1>> >>,                       \* P4_1 22, grey
  << <<C4z, <<h,0,h>>, 1>>, <<Inv, <<h,h,h>>, 0>> >>,                                      \* P4_2'/n
  << <<C4z, <<h,h,h>>, 0>>, <<Mx, <<h,h,0>>, 1>>, <<Inv, O3, 0>> >>,                       \* black-white, like P4_2/mn'm'
  << <<C3h, <<0,0,t3>>, 0>>, <<C2d, <<0,0,0>>, 1>> >>,                                     \* P3_1 2'1
  << <<C6z, <<0,0,h>>, 0>>, <<Mh, <<0,0,h>>, 0>>, <<E9, O3, 1>> >>,                       \* P6_3mc, grey
  << <<C6z, <<0,0,h>>, 1>>, <<Inv, O3, 0>> >>,                                             \* P6_3'/m
  << <<C2z, <<h,0,h>>, 0>>, <<C2x, <<h,h,0>>, 0>>, <<C3d, O3, 0>>, <<Inv, O3, 1>> >>,      \* P2_1 3 -> Pa-3'
  << <<E9, <<0,0,h>>, 1>>, <<C2z, <<0,0,q>>, 0>> >>,                                       \* type IV, anti-translation
  << <<S4z, <<q,h,q>>, 0>>, <<E9, O3, 1>> >>
>>
RECURSIVE CloseUp(_, _)
CloseUp(s, gens) == LET s2 == s \cup {Norm(OpMul(g, x)) : g \in gens, x \in s} IN
   IF s2 = s \/ Cardinality(s2) > 64 THEN s2 ELSE CloseUp(s2, gens)
MulOf(ops) == [a \in 1..Len(ops) |-> [b \in 1..Len(ops) |-> CHOOSE c \in 1..Len(ops) : OpEqv(OpMul(ops[a], ops[b]), ops[c], Dt)]]
\* one operation for each pair (rotation, time reversal): a primitive cell
Primitive(s) == \A x \in s : \A y \in s : x[1] = y[1] /\ x[3] = y[3] => x = y

VARIABLES fam, used, ops, mul, k
vars == <<fam, used, ops, mul, k>>
Ks == { <<a, b, c>> : a \in Grid, b \in Grid, c \in Grid }
Trivial == << <<E9, O3, 0>> >>
Init == fam \in 1..Len(Families) /\ used = 0 /\ ops = Trivial /\ mul = <<<<1>>>> /\ k \in Ks
Extend == /\ used < Len(Families[fam])
          /\ \E s \in {CloseUp({Norm(x) : x \in Range(ops)}, {Families[fam][z] : z \in 1..(used+1)})} :
             /\ Cardinality(s) <= 48 /\ Primitive(s)
             /\ \E o \in {SetToSeq(s)} : ops' = o /\ mul' = MulOf(o)
          /\ used' = used + 1 /\ UNCHANGED <<fam, k>>
\* other lattice representatives of the translations
Shift == /\ used > 0 /\ \A z \in 1..Len(ops) : ops[z] = Norm(ops[z])
         /\ \E v \in Shifts : ops' = [z \in 1..Len(ops) |-> IF ops[z][1] = E9 /\ ops[z][3] = 0 THEN ops[z]
               ELSE << ops[z][1], << ops[z][2][1] + Dt*((v*z) % 3), ops[z][2][2] - Dt*(z % 2), ops[z][2][3] + Dt*v >>, ops[z][3] >>]
         /\ UNCHANGED <<fam, used, mul, k>>
Next == Extend \/ Shift
Spec == Init /\ [][Next]_vars

N == Dt * Dk
Lg == {z \in 1..Len(ops) : Stabilises(ops[z], k, Dk)}
sg(z) == IF ops[z][3] = 1 THEN -1 ELSE 1
\* exponents of the two laws
w(a, b) == PhaseExp(ops, mul, k, a, b)
m(a, b) == MultExp(ops, k, a, b)
Closed == \E e \in Lg : ops[e][1] = E9 /\ ops[e][3] = 0 /\ \A a \in Lg : \A b \in Lg : mul[a][b] \in Lg
Associative == \A a \in Lg : \A b \in Lg : \A c \in Lg :
   (w(a, b) + w(mul[a][b], c) - w(a, mul[b][c]) - sg(a) * w(b, c)) % N = 0
Cocycle == \A a \in Lg : \A b \in Lg :
   /\ \A c \in Lg : (m(a, b) + m(mul[a][b], c) - m(a, mul[b][c]) - sg(a) * m(b, c)) % N = 0
   \* Gamma(g) = e^{-ik.w} D(g)
   /\ (w(a, b) - (m(a, b) - Dot3(k, ops[a][2]) - sg(a) * Dot3(k, ops[b][2]) + Dot3(k, ops[mul[a][b]][2]))) % N = 0
Anti == {z \in Lg : ops[z][3] = 1}
Halved == Anti = {} \/ (2 * Cardinality(Anti) = Cardinality(Lg) /\ \A a0 \in Anti : {mul[a0][u] : u \in Lg \ Anti} = Anti /\ {mul[u][a0] : u \in Lg \ Anti} = Anti)
\* Gamma(a)^2* = e^{i w(a,a)} Gamma(a^2): applying Gamma(a) once more on either side gives the same, so w(a,a) determines a sign relative to Gamma(a^2)
Squares == \A a \in Anti : ops[mul[a][a]][3] = 0 /\ (w(a, a) + w(mul[a][a], a) - w(a, mul[a][a]) + w(a, a)) % N = 0
Translations == \A z \in 1..Len(ops) : z \in Lg =>
   \A t \in {<<Dt,0,0>>, <<0,Dt,0>>, <<0,0,Dt>>} :
     \* (E,t) g = g (E, R^-1 t): both give the same phase exactly when k is stabilised; here through R t' = t
     Dot3(k, RApp(ops[z][1], t)) % N = (sg(z) * Dot3(k, t)) % N
============================================================================
