---------------------------- MODULE FramesModel ----------------------------
(* Every sequence of at most Depth changes of description, for small groups
   (screw axes, glides, a non-abelian and magnetic groups) and k-vectors.    *)
EXTENDS Frames
CONSTANT Depth
Dt == 12
Dk == 12
C2z == <<-1,0,0, 0,-1,0, 0,0,1>>
C2x == <<1,0,0, 0,-1,0, 0,0,-1>>
C2y == <<-1,0,0, 0,1,0, 0,0,-1>>
Mz  == <<1,0,0, 0,1,0, 0,0,-1>>
C4z == <<0,-1,0, 1,0,0, 0,0,1>>
C3  == <<0,-1,0, 1,-1,0, 0,0,1>>
Mh  == <<0,1,0, 1,0,0, 0,0,1>>
O3 == <<0,0,0>>
\* generated groups
RECURSIVE Close(_, _)
Norm(o) == << o[1], <<o[2][1] % Dt, o[2][2] % Dt, o[2][3] % Dt>>, o[3] >>
Close(s, gens) == LET n == s \cup {Norm(OpMul(g, x)) : g \in gens, x \in s} IN IF n = s THEN s ELSE Close(n, gens)
Grp(gens) == SetToSeq(Close({<<E9, O3, 0>>}, gens))
Groups == TLCEval(<<
  Grp({<<C2z, <<0,0,6>>, 0>>}),                                   \* P2_1
  Grp({<<Mz, <<6,0,0>>, 0>>}),                                    \* Pa
  Grp({<<C2z, <<6,0,6>>, 0>>, <<C2x, <<6,6,0>>, 0>>}),            \* P2_1 2_1 2_1
  Grp({<<C4z, <<0,0,3>>, 0>>}),                                   \* P4_1
  Grp({<<C3, <<0,0,4>>, 0>>}),                                    \* P3_1
  Grp({<<C3, O3, 0>>, <<Mh, <<0,0,6>>, 0>>}),                     \* P3c1
  Grp({<<C2z, <<0,0,6>>, 0>>, <<E9, O3, 1>>}),                    \* P2_1 1'
  Grp({<<C2z, <<0,0,6>>, 1>>}),                                   \* P2_1'
  Grp({<<C4z, <<0,0,3>>, 1>>}),                                   \* P4_1'
  Grp({<<RNeg(E9), <<0,0,0>>, 1>>, <<C2z, <<0,0,6>>, 0>>})        \* P2_1/m'
>>)
KS == { O3, <<0,0,6>>, <<6,6,6>>, <<4,4,6>>, <<0,0,3>>, <<1,2,5>> }
MulOf(ops) == [a \in 1..Len(ops) |-> [b \in 1..Len(ops) |-> CHOOSE c \in 1..Len(ops) : OpEqv(OpMul(ops[a], ops[b]), ops[c], Dt)]]
Units == << <<<<1,1,0, 0,1,0, 0,0,1>>, <<1,-1,0, 0,1,0, 0,0,1>>>>, <<<<0,0,1, 1,0,0, 0,1,0>>, <<0,1,0, 0,0,1, 1,0,0>>>>,
            <<<<1,0,0, 0,1,0, -1,0,-1>>, <<1,0,0, 0,1,0, -1,0,-1>>>> >>
Inv(R) == CHOOSE x \in {RMul(R, R), R, RMul(R, RMul(R, R)), RMul(R, RMul(R, RMul(R, RMul(R, R))))} : RMul(R, x) = E9

VARIABLES g, k0, d, depth
vars == <<g, k0, d, depth>>
Init == \E G \in {Groups} : \E i \in 1..Len(G) : g = [ops |-> G[i], mul |-> MulOf(G[i])] /\ k0 \in KS /\ d = First(G[i], k0) /\ depth = 0
n == Len(d.ops)
Do(x) == depth < Depth /\ depth' = depth + 1 /\ d' = x /\ UNCHANGED <<g, k0>>
DoReorder == \E p \in {[q \in 1..n |-> (q % n) + 1], [q \in 1..n |-> n + 1 - q]} : Do(Reorder(d, p))
DoBasis == \E u \in 1..Len(Units) : Do(Basis(d, Units[u][1], Units[u][2]))
DoOrigin == \E p \in {<<3,0,0>>, <<1,2,5>>} : Do(Origin(d, p))
DoRepresent == \E v \in {[q \in 1..n |-> IF d.ops[q][1] = E9 /\ d.ops[q][3] = 0 THEN O3 ELSE <<q % 3, -1, q % 2>>], [q \in 1..n |-> IF q = n THEN <<-1,0,2>> ELSE O3]} : Do(Represent(d, v, Dk, Dt))
DoShiftK == \E G \in {<<1,0,0>>, <<0,-2,1>>} : Do(ShiftK(d, G, Dk))
DoArm == \E i \in 1..n : \E V \in {Inv(d.ops[i][1])} : Do(Arm(d, i, V, Dk, Dt))
DoConjugate == Do(Conjugate(d, Dk, Dt))
Next == DoReorder \/ DoBasis \/ DoOrigin \/ DoRepresent \/ DoShiftK \/ DoArm \/ DoConjugate
Spec == Init /\ [][Next]_vars

Bijective == AtOK(g.ops, d)
Little == LittleOK(g.ops, k0, d, Dk)
Isomorphic == IsoOK(g.mul, d, Dt)
Phases == PhaseOK(g.ops, g.mul, k0, d, Dk, Dt)
\* the library requires a trivial translation of the identity only of its input; phases of the identity are those of its translation
IdentityPhase == \A h \in 1..n : g.ops[h][1] = E9 /\ g.ops[h][3] = 0 => (d.ph[h] - Dot3(d.k, d.ops[d.at[h]][2])) % (Dk*Dt) = 0
============================================================================
