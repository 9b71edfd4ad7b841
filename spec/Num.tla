------------------------------- MODULE Num -------------------------------
(* Fixed-point and exact arithmetic shared by the specification.
   Real numbers are integers scaled by S; phases are exact rationals m/N of a
   full turn and are only converted to fixed point by Cis.  All intermediate
   values stay below 2^31 for the guarded ("bounded") operands.             *)
EXTENDS Integers, Sequences, TLC, SequencesExt

S == 8192              \* fixed-point scale of matrix entries
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Idx(n) == TLCEval([q \in 1..n |-> q])
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SumOver(n, F(_)) == FoldLeft(LAMBDA a, q : a + F(q), 0, Idx(n))

\* cos(2 pi q / 256) * S for q in 0..64; the other three quadrants by symmetry
QuarterCos == << 8192, 8190, 8182, 8170, 8153, 8130, 8103, 8071, 8035, 7993, 7946, 7895, 7839, 7779, 7713, 7643, 7568, 7489, 7405, 7317, 7225, 7128, 7027, 6921, 6811, 6698, 6580, 6458, 6333, 6203, 6070, 5933, 5793, 5649, 5501, 5351, 5197, 5040, 4880, 4717, 4551, 4383, 4212, 4038, 3862, 3683, 3503, 3320, 3135, 2948, 2760, 2570, 2378, 2185, 1990, 1795, 1598, 1401, 1202, 1003, 803, 603, 402, 201, 0 >>
Cos256(q) == LET r == q % 256 IN
             IF r <= 64 THEN QuarterCos[r + 1]
             ELSE IF r <= 128 THEN -QuarterCos[128 - r + 1]
             ELSE IF r <= 192 THEN -QuarterCos[r - 128 + 1]
             ELSE QuarterCos[256 - r + 1]
Sin256(q) == Cos256(q + 192)

\* the table is forced to be the cosine by the addition law, not trusted
ASSUME QuarterCos[1] = S /\ QuarterCos[65] = 0
ASSUME \A q \in 1..64 : QuarterCos[q + 1] < QuarterCos[q]
ASSUME \A q \in 0..255 : Near(Cos256(q)*Cos256(q) + Sin256(q)*Sin256(q), S*S, 2*S)
ASSUME \A q \in 0..255 : \A p \in {1, 2, 5, 17, 64, 100} :
         Near(Cos256(p)*Cos256(q) - Sin256(p)*Sin256(q), S*Cos256(p+q), 2*S)

\* exp(2 pi i m / N) * S as <<re, im>>, for 0 < N < 32768
Cis(m, N) ==
  LET t  == ((m % N) * 65536) \div N                  \* angle in 1/65536 turns
      b  == t \div 256
      f  == t % 256                                   \* rest, below 1/256 turn
      sf == (f * 51472 + 32768) \div 65536             \* S*sin of the rest
      cf == S - (sf * sf) \div (2 * S)                 \* S*cos of the rest
      cb == Cos256(b)
      sb == Sin256(b)
  IN << (cb*cf - sb*sf + S \div 2) \div S, (sb*cf + cb*sf + S \div 2) \div S >>
ASSUME Cis(0, 7) = <<S, 0>> /\ Cis(1, 4) = <<0, S>> /\ Cis(3, 6) = <<-S, 0>>
ASSUME \A m \in 0..48 : LET a == Cis(m, 97)  b == Cis(2*m, 97) IN
         Near(a[1]*a[1] - a[2]*a[2], S*b[1], 6*S) /\ Near(2*a[1]*a[2], S*b[2], 6*S)

\* exact integer dot products of sequences
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
==========================================================================
