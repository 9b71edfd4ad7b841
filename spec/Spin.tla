------------------------------- MODULE Spin -------------------------------
(* Spin-1/2 rotations.  A lattice is a row-major 9-tuple of fixed-point numbers
   (rows are basis vectors), already scaled so that entries are at most 4S/... ;
   a Cartesian rotation is a fixed-point row-major 9-tuple.                     *)
EXTENDS Cryst, Rep

\* three-term dot products rounded back to scale S
D3(a, b, c, x, y, z) == (a*x + b*y + c*z + S \div 2) \div S
\* Cartesian rotation C of the integer rotation R for the lattice with rows A:
\* A^T R = C A^T ; certified up to 1/250
CartOf(lat, cart, R) ==
  /\ \A i \in 1..9 : Abs(lat[i]) <= 2*S /\ Abs(cart[i]) <= S + 8
  /\ \A i \in 1..3 : \A j \in 1..3 :
       \* (A^T R)[i][j] = sum_k lat[k][i] R[k][j]
       Near(lat[i]*R[j] + lat[3+i]*R[3+j] + lat[6+i]*R[6+j],
            D3(cart[3*(i-1)+1], cart[3*(i-1)+2], cart[3*(i-1)+3], lat[3*(j-1)+1], lat[3*(j-1)+2], lat[3*(j-1)+3]), 24)
  /\ \A i \in 1..3 : \A j \in 1..3 :
       Near(D3(cart[3*(i-1)+1], cart[3*(i-1)+2], cart[3*(i-1)+3], cart[3*(j-1)+1], cart[3*(j-1)+2], cart[3*(j-1)+3]),
            IF i = j THEN S ELSE 0, 24)
\* the lattice is not degenerate, so CartOf determines cart up to a small error
NonDegenerate(lat) ==
  LET q(i) == (lat[i] + 16) \div 32 IN  \* scale 256
  Abs(q(1)*(q(5)*q(9)-q(6)*q(8)) - q(2)*(q(4)*q(9)-q(6)*q(7)) + q(3)*(q(4)*q(8)-q(5)*q(7))) >= 256*256*4
LatticeCert(lat, cart, ops) ==
  NonDegenerate(lat) /\ Len(cart) = Len(ops) /\ \A i \in 1..Len(ops) : CartOf(lat, cart[i], ops[i][1])

\* U = q0 - i (q1 sx + q2 sy + q3 sz)  =>  q from the first row; x, y are real and imaginary parts
Quat(x, y) == << x[1], -y[2], -x[2], -y[1] >>
InSU2(x, y) == /\ Near(x[4], x[1], 8) /\ Near(y[4], -y[1], 8) /\ Near(x[3], -x[2], 8) /\ Near(y[3], y[2], 8)
               /\ Near(x[1]*x[1] + y[1]*y[1] + x[2]*x[2] + y[2]*y[2], S*S, TOL)
Q2(a, b) == (2*a*b + S \div 2) \div S
RotOfQuat(q) == <<
  S - Q2(q[3],q[3]) - Q2(q[4],q[4]), Q2(q[2],q[3]) - Q2(q[1],q[4]), Q2(q[2],q[4]) + Q2(q[1],q[3]),
  Q2(q[2],q[3]) + Q2(q[1],q[4]), S - Q2(q[2],q[2]) - Q2(q[4],q[4]), Q2(q[3],q[4]) - Q2(q[1],q[2]),
  Q2(q[2],q[4]) - Q2(q[1],q[3]), Q2(q[3],q[4]) + Q2(q[1],q[2]), S - Q2(q[2],q[2]) - Q2(q[3],q[3]) >>
\* undo the time-reversal matrix: U' = U (-i sigma_y) = U [[0,-1],[1,0]]  =>  U = U' [[0,1],[-1,0]]
Undo(m) == << -m[2], m[1], -m[4], m[3] >>
Lin(m, th) == IF th = 1 THEN Undo(m) ELSE m
CTOL == 64             \* 0.8 per cent on entries of rotations
\* U covers the proper part of cart, angle in [0, pi]
Covers(x, y, cart, R) ==
  LET q == Quat(x, y)  W == RotOfQuat(q)  d == RDet(R) IN
  /\ InSU2(x, y)
  /\ q[1] >= -24
  /\ \A i \in 1..9 : Near(W[i], d * cart[i], CTOL)
  /\ R \in {E9, RNeg(E9)} => Near(q[1], S, 8)
CoversAll(U, cart, ops) ==
  \A i \in 1..Len(ops) : Covers(Lin(U.re[i], ops[i][3]), Lin(U.im[i], ops[i][3]), cart[i], ops[i][1])
===========================================================================
