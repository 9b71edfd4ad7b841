------------------------------- MODULE Fine -------------------------------
(* Double-word fixed point: a number is 8192*h + l in units of 2^-26.  Used on
   samples of the recorded matrices, where the multiplication law and unitarity
   must hold to 2e-6 and not only to the resolution of the coarse records.
   A matrix is [rh, rl, ih, il], flat row-major.                             *)
EXTENDS Num
\* cos(2 pi fm / 24), fm in 0..6, in units of 2^-26
QCos == <<67108864, 64822185, 58117981, 47453133, 33554432, 17369052, 0>>
FCos(fm) == LET r == fm % 24 IN
  IF r <= 6 THEN QCos[r+1] ELSE IF r <= 12 THEN -QCos[13-r] ELSE IF r <= 18 THEN -QCos[r-11] ELSE QCos[25-r]
Hi(v) == (v + 4096) \div 8192
Lo(v) == v - 8192 * Hi(v)
\* product of two double words, in units of 2^-26
FMul(ah, al, bh, bl) == ah*bh + (ah*bl + al*bh) \div 8192
\* the constants are forced by the addition law
ASSUME \A p \in 0..23 : \A q \in 0..23 :
  LET c(fm) == FCos(fm)  fs(fm) == FCos(fm + 18) IN
  Near(FMul(Hi(c(p)), Lo(c(p)), Hi(c(q)), Lo(c(q))) - FMul(Hi(fs(p)), Lo(fs(p)), Hi(fs(q)), Lo(fs(q))), c(p+q), 6)
ASSUME FCos(0) = 67108864 /\ \A q \in 1..6 : QCos[q+1] < QCos[q]

FTOL == 134             \* 2e-6
FDot(F(_), fn) == FoldLeft(LAMBDA z, c : z + F(c), 0, Idx(fn))
WellFormed(x, fd) == Len(x.rh) = fd*fd /\ Len(x.rl) = fd*fd /\ Len(x.ih) = fd*fd /\ Len(x.il) = fd*fd
   /\ \A q \in 1..(fd*fd) : Abs(x.rh[q]) <= 8200 /\ Abs(x.ih[q]) <= 8200 /\ Abs(x.rl[q]) <= 4096 /\ Abs(x.il[q]) <= 4096
\* the sample is of the same matrix as the coarse record
SameAs(x, re, im) == \A q \in 1..Len(x.rh) : Abs(x.rh[q] - re[q]) <= 1 /\ Abs(x.ih[q] - im[q]) <= 1
\* X Y (Y conjugated when anti) = fs exp(2 pi i fm/24) Z
FineProd(x, y, z, fm, fs, anti, fd) ==
  LET cc == fs * FCos(fm)  ss == fs * FCos(fm + 18)  g == IF anti THEN -1 ELSE 1
      ch == Hi(cc)  cl == Lo(cc)  sh == Hi(ss)  sl == Lo(ss)
  IN \A a \in 1..fd : \A b \in 1..fd :
     LET P(c) == (a-1)*fd + c   Q(c) == (c-1)*fd + b   o == (a-1)*fd + b
         hr == FDot(LAMBDA c : x.rh[P(c)]*y.rh[Q(c)] - g*x.ih[P(c)]*y.ih[Q(c)], fd)
         lr == FDot(LAMBDA c : x.rh[P(c)]*y.rl[Q(c)] + x.rl[P(c)]*y.rh[Q(c)] - g*(x.ih[P(c)]*y.il[Q(c)] + x.il[P(c)]*y.ih[Q(c)]), fd)
         hi == FDot(LAMBDA c : x.ih[P(c)]*y.rh[Q(c)] + g*x.rh[P(c)]*y.ih[Q(c)], fd)
         li == FDot(LAMBDA c : x.ih[P(c)]*y.rl[Q(c)] + x.il[P(c)]*y.rh[Q(c)] + g*(x.rh[P(c)]*y.il[Q(c)] + x.rl[P(c)]*y.ih[Q(c)]), fd)
     IN /\ Near(hr + lr \div 8192, FMul(ch, cl, z.rh[o], z.rl[o]) - FMul(sh, sl, z.ih[o], z.il[o]), FTOL)
        /\ Near(hi + li \div 8192, FMul(ch, cl, z.ih[o], z.il[o]) + FMul(sh, sl, z.rh[o], z.rl[o]), FTOL)
\* X X^dagger = 1
FineUnitary(x, fd) ==
  \A a \in 1..fd : \A b \in a..fd :
     LET P(c) == (a-1)*fd + c   Q(c) == (b-1)*fd + c
         hr == FDot(LAMBDA c : x.rh[P(c)]*x.rh[Q(c)] + x.ih[P(c)]*x.ih[Q(c)], fd)
         lr == FDot(LAMBDA c : x.rh[P(c)]*x.rl[Q(c)] + x.rl[P(c)]*x.rh[Q(c)] + x.ih[P(c)]*x.il[Q(c)] + x.il[P(c)]*x.ih[Q(c)], fd)
         hi == FDot(LAMBDA c : x.ih[P(c)]*x.rh[Q(c)] - x.rh[P(c)]*x.ih[Q(c)], fd)
         li == FDot(LAMBDA c : x.ih[P(c)]*x.rl[Q(c)] + x.il[P(c)]*x.rh[Q(c)] - x.rh[P(c)]*x.il[Q(c)] - x.rl[P(c)]*x.ih[Q(c)], fd)
     IN /\ Near(hr + lr \div 8192, IF a = b THEN 67108864 ELSE 0, FTOL)
        /\ (a # b => Near(hi + li \div 8192, 0, FTOL))
\* general product of X (p by q) and Y (q by r): [re, im] in units of 2^-26
FineMM(x, y, p, q, r) ==
  LET el(a, b, kind) ==
        LET P(c) == (a-1)*q + c   Q(c) == (c-1)*r + b IN
        IF kind = 0 THEN FDot(LAMBDA c : x.rh[P(c)]*y.rh[Q(c)] - x.ih[P(c)]*y.ih[Q(c)], q)
               + FDot(LAMBDA c : x.rh[P(c)]*y.rl[Q(c)] + x.rl[P(c)]*y.rh[Q(c)] - x.ih[P(c)]*y.il[Q(c)] - x.il[P(c)]*y.ih[Q(c)], q) \div 8192
        ELSE FDot(LAMBDA c : x.ih[P(c)]*y.rh[Q(c)] + x.rh[P(c)]*y.ih[Q(c)], q)
               + FDot(LAMBDA c : x.ih[P(c)]*y.rl[Q(c)] + x.il[P(c)]*y.rh[Q(c)] + x.rh[P(c)]*y.il[Q(c)] + x.rl[P(c)]*y.ih[Q(c)], q) \div 8192
  IN [re |-> [z \in 1..(p*r) |-> el((z-1) \div r + 1, ((z-1) % r) + 1, 0)], im |-> [z \in 1..(p*r) |-> el((z-1) \div r + 1, ((z-1) % r) + 1, 1)]]
WellFormedAs(x, fm) == Len(x.rh) = fm /\ Len(x.rl) = fm /\ Len(x.ih) = fm /\ Len(x.il) = fm
   /\ \A q \in 1..fm : Abs(x.rh[q]) <= 8200 /\ Abs(x.ih[q]) <= 8200 /\ Abs(x.rl[q]) <= 4096 /\ Abs(x.il[q]) <= 4096
FineEq(u, v, tol) == \A z \in 1..Len(u.re) : Near(u.re[z], v.re[z], tol) /\ Near(u.im[z], v.im[z], tol)
============================================================================
