------------------------------- MODULE Rep -------------------------------
(* Matrix representations observed from the code, in fixed point.
   r = [n |-> number of matrices, d |-> <<rows, cols>>, re, im |-> sequence of
   flat row-major matrices].                                               *)
EXTENDS Num

TOL == 48*S            \* on products of two fixed-point matrices (scale S*S): 0.6 per cent

Shaped(r, n) == r.n = n /\ r.d[1] = r.d[2] /\ r.d[1] >= 1 /\ Len(r.re) = n /\ Len(r.im) = n
Dim(r) == r.d[1]
\* entries of unitary matrices are bounded by 1 (also guards against overflow below)
Bounded(r) == \A i \in 1..r.n : \A q \in 1..(r.d[1]*r.d[2]) :
                Abs(r.re[i][q]) <= S + 8 /\ Abs(r.im[i][q]) <= S + 8
UnitaryMat(x, y, d) ==
  LET dd == Idx(d) IN
  \A a \in 1..d : \A b \in a..d :
    /\ Near(FoldLeft(LAMBDA z, c : z + x[(a-1)*d+c]*x[(b-1)*d+c] + y[(a-1)*d+c]*y[(b-1)*d+c], 0, dd),
            IF a = b THEN S*S ELSE 0, TOL)
    /\ (a # b => Near(FoldLeft(LAMBDA z, c : z + y[(a-1)*d+c]*x[(b-1)*d+c] - x[(a-1)*d+c]*y[(b-1)*d+c], 0, dd), 0, TOL))
Unitary(r) == \A i \in 1..r.n : UnitaryMat(r.re[i], r.im[i], Dim(r))

\* matrix i times matrix j (conjugated when anti) equals ph = <<c,s>>/S times matrix k
ProdIs(r, i, j, k, ph, anti) ==
  LET d == Dim(r)  dd == Idx(d)
      ar == r.re[i]  ai == r.im[i]  br == r.re[j]  bi == r.im[j]
      kr == r.re[k]  ki == r.im[k]  sg == IF anti THEN -1 ELSE 1
  IN \A a \in 1..d : \A b \in 1..d :
     LET o == (a-1)*d IN
       /\ Near(FoldLeft(LAMBDA z, c : z + ar[o+c]*br[(c-1)*d+b] - sg*ai[o+c]*bi[(c-1)*d+b], 0, dd),
               ph[1]*kr[o+b] - ph[2]*ki[o+b], TOL)
       /\ Near(FoldLeft(LAMBDA z, c : z + ai[o+c]*br[(c-1)*d+b] + sg*ar[o+c]*bi[(c-1)*d+b], 0, dd),
               ph[1]*ki[o+b] + ph[2]*kr[o+b], TOL)
\* matrix i equals ph times the unit matrix
IsScalar(r, i, ph) ==
  LET d == Dim(r) IN \A a \in 1..d : \A b \in 1..d :
    /\ Near(r.re[i][(a-1)*d+b], IF a = b THEN ph[1] ELSE 0, 8)
    /\ Near(r.im[i][(a-1)*d+b], IF a = b THEN ph[2] ELSE 0, 8)

\* characters at scale 256
CS == 256
Rnd32(x) == (x + 16) \div 32
Chi(r) == LET d == Dim(r)  dd == Idx(d) IN
  TLCEval([i \in 1..r.n |->
     << Rnd32(FoldLeft(LAMBDA z, a : z + r.re[i][(a-1)*d+a], 0, dd)),
        Rnd32(FoldLeft(LAMBDA z, a : z + r.im[i][(a-1)*d+a], 0, dd)) >>])
\* sum over idx of conj(x) y, at scale CS*CS: <<re, im>>
ChiDot(x, y, idx) ==
  << FoldLeft(LAMBDA z, i : z + x[i][1]*y[i][1] + x[i][2]*y[i][2], 0, idx),
     FoldLeft(LAMBDA z, i : z + x[i][1]*y[i][2] - x[i][2]*y[i][1], 0, idx) >>
\* inner product of characters equals the integer m (times |idx|) -- the true value is an integer
DotIs(x, y, idx, m) ==
  LET v == ChiDot(x, y, idx)  u == Len(idx) * CS * CS  IN
  Near(v[1], m*u, u \div 8) /\ Near(v[2], 0, u \div 8)
\* the integer multiplicity of irreducible character x in character y (floor of the rounded value)
Mult(x, y, idx) == LET u == Len(idx) * CS * CS IN (ChiDot(x, y, idx)[1] + u \div 2) \div u
MultExact(x, y, idx) == DotIs(x, y, idx, Mult(x, y, idx))
==========================================================================
