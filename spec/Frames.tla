------------------------------- MODULE Frames -------------------------------
(* Descriptions of one space group and one k, and the changes between them.
   A description d carries what must hold between the first description and
   the current one:
     ops, k    the current operations and k-vector (numerators over Dt, Dk)
     at        where the h-th operation of the first description is now
     ph, cj    characters are carried over:
               chi_now(at(h)) = exp(-2 pi i ph(h) / (Dk Dt)) chi_first(h), with
               the complex conjugate of chi_first when cj
   Every change is an operator on descriptions; FramesModel checks exhaustively
   that the relation is the one the representation law dictates, FramesTrace
   replays recorded calls of the library.                                    *)
EXTENDS Cryst

First(ops, k) == [ops |-> ops, k |-> k, at |-> Idx(Len(ops)), ph |-> [h \in 1..Len(ops) |-> 0], cj |-> FALSE]

\* the q-th operation becomes the operation at p[q] of the old list
Reorder(d, p) ==
  [d EXCEPT !.ops = [q \in 1..Len(p) |-> d.ops[p[q]]],
            !.at  = [h \in 1..Len(p) |-> CHOOSE q \in 1..Len(p) : p[q] = d.at[h]]]
\* new basis a U, U unimodular with inverse V
Basis(d, U, V) ==
  [d EXCEPT !.ops = [q \in 1..Len(d.ops) |-> << RMul(RMul(V, d.ops[q][1]), U), RApp(V, d.ops[q][2]), d.ops[q][3] >>],
            !.k   = RApp(RTrans(U), d.k)]
\* the origin moves by -p: conjugation by the translation p
Origin(d, p) ==
  [d EXCEPT !.ops = [q \in 1..Len(d.ops) |-> << d.ops[q][1], V3Sub(V3Add(d.ops[q][2], p), RApp(d.ops[q][1], p)), d.ops[q][3] >>]]
\* other integer representatives of the translations
Represent(d, v, Dk, Dt) ==
  [d EXCEPT !.ops = [q \in 1..Len(d.ops) |-> << d.ops[q][1], << d.ops[q][2][1] + Dt*v[q][1], d.ops[q][2][2] + Dt*v[q][2], d.ops[q][2][3] + Dt*v[q][3] >>, d.ops[q][3] >>],
            !.ph  = [h \in 1..Len(d.ops) |-> (d.ph[h] + Dt * Dot3(d.k, v[d.at[h]])) % (Dk*Dt)]]
\* k modulo reciprocal lattice vectors
ShiftK(d, G, Dk) == [d EXCEPT !.k = << d.k[1] + Dk*G[1], d.k[2] + Dk*G[2], d.k[3] + Dk*G[3] >>]
\* another arm of the star: conjugation by the g-th operation (S, w, th), with V = S^-1
Arm(d, g, V, Dk, Dt) ==
  LET S1 == d.ops[g][1]  w == d.ops[g][2]  th == d.ops[g][3]
      kk == RApp(RTrans(V), d.k)
      k2 == IF th = 1 THEN <<-kk[1], -kk[2], -kk[3]>> ELSE kk
      RC(h) == RMul(RMul(S1, d.ops[d.at[h]][1]), V)
      \* (S,w)(R,t)(S,w)^-1 = (S R S^-1, w + S t - S R S^-1 w)
      TC(h) == V3Sub(V3Add(w, RApp(S1, d.ops[d.at[h]][2])), RApp(RC(h), w))
      to(h) == CHOOSE q \in 1..Len(d.ops) : d.ops[q][1] = RC(h) /\ d.ops[q][3] = d.ops[d.at[h]][3]
  IN [d EXCEPT !.k = k2,
               !.at = [h \in 1..Len(d.ops) |-> to(h)],
               !.ph = [h \in 1..Len(d.ops) |->
                         ((IF th = 1 THEN -d.ph[h] ELSE d.ph[h]) - Dot3(k2, V3Sub(TC(h), d.ops[to(h)][2]))) % (Dk*Dt)],
               !.cj = (d.cj # (th = 1))]
\* k reversed: complex conjugation
Conjugate(d, Dk, Dt) ==
  [d EXCEPT !.k = <<-d.k[1], -d.k[2], -d.k[3]>>, !.cj = ~d.cj, !.ph = [h \in 1..Len(d.ops) |-> (-d.ph[h]) % (Dk*Dt)]]

\* ---- what must hold between the first description (ops0, k0) and d ----
AtOK(ops0, d) == Len(d.ops) = Len(ops0) /\ {d.at[h] : h \in 1..Len(ops0)} = 1..Len(ops0)
LittleOK(ops0, k0, d, Dk) ==
  \A h \in 1..Len(ops0) : Stabilises(ops0[h], k0, Dk) <=> Stabilises(d.ops[d.at[h]], d.k, Dk)
\* the operations stay a group and `at` is an isomorphism
IsoOK(mul0, d, Dt) ==
  \A a \in 1..Len(d.ops) : \A b \in 1..Len(d.ops) :
     OpEqv(OpMul(d.ops[d.at[a]], d.ops[d.at[b]]), d.ops[d.at[mul0[a][b]]], Dt)
\* the phases carry the multiplication law of the first description into that of the current one
PhaseOK(ops0, mul0, k0, d, Dk, Dt) ==
  \A a \in {h \in 1..Len(ops0) : Stabilises(ops0[h], k0, Dk)} : \A b \in {h \in 1..Len(ops0) : Stabilises(ops0[h], k0, Dk)} :
    LET m0 == PhaseExp(ops0, mul0, k0, a, b)
        x == d.ops[d.at[a]]  y == d.ops[d.at[b]]  z == d.ops[d.at[mul0[a][b]]]
        m1 == -Dot3(d.k, V3Sub(V3Add(x[2], RApp(x[1], y[2])), z[2]))
        sb == IF ops0[a][3] = 1 THEN -1 ELSE 1
        sc == IF d.cj THEN -1 ELSE 1
    IN (m1 + d.ph[a] + sb * d.ph[b] - d.ph[mul0[a][b]] - sc * m0) % (Dk*Dt) = 0
============================================================================
