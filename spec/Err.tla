---------------------------------- MODULE Err ----------------------------------
(* Real numbers with error bounds: [v, d], where v is a plain number and d >= 0 bounds the distance from v of the exact     *)
(* value the specification talks about and of any single-precision evaluation of the same expression, in any association     *)
(* order, with or without fused multiply-add. Observed floats and constants are exact: d = 0.                                *)
EXTENDS Real

XExact(x) == [v |-> x, d |-> Zero]
X2(v, d) == [v |-> v, d |-> d]
LiftAll(s) == TLCEval([i \in 1..Len(s) |-> XExact(s[i])])
XZero == XExact(Zero)
XOne == XExact(One)
XInt(n) == XExact(OfInt(n))
IsZero(x) == x.v[1] = 0 /\ x.d[1] = 0
\* one operation's rounding (twice half a unit in the last place, so that fused or reassociated forms are covered);
\* results below 2^-102 may lose everything below 2^-126
TINY == -126
Ulp(v) == IF v[1] = 0 THEN Zero ELSE Two2(Max2(v[2] + 6, TINY))
\* the bound after rounding: what is rounded may be as large as |v| + d
Rounded(v, d) == PAdd(d, IF d[1] = 0 \/ (v[1] # 0 /\ d[2] <= v[2]) THEN Ulp(v) ELSE Ulp(d))
\* beyond single precision a value says nothing any more: it is just unknown (and exponents stay small)
FAR == 300
XUnknown == [v |-> Zero, d |-> Two2(FAR)]
\* may have left single precision: infinite, or not a number from here on, even times a zero
Far(x) == x.d[1] # 0 /\ (E(x.d) >= 127 \/ E(x.v) >= 128)
XCapped(x) == IF E(x.v) > 128 \/ E(x.d) > 128 THEN XUnknown ELSE x
XNeg(x) == [v |-> Neg(x.v), d |-> x.d]
XAbs(x) == [v |-> Abs(x.v), d |-> x.d]
XHalf(x) == [v |-> Half(x.v), d |-> Half(x.d)]
XTwice(x) == [v |-> Twice(x.v), d |-> Twice(x.d)]
XMax(a, b) == IF Far(a) \/ Far(b) THEN XUnknown ELSE [v |-> MaxR(a.v, b.v), d |-> MaxR(a.d, b.d)]
XAdd(a, b) == IF IsZero(a) THEN b ELSE IF IsZero(b) THEN a ELSE IF Far(a) \/ Far(b) THEN XUnknown
              ELSE LET v == PAdd(a.v, b.v)
                       big == Two2(Max2(E(a.v), E(b.v)) - 28)         \* the specification's own rounding
                   IN  [v |-> v, d |-> Rounded(v, PAdd(PAdd(a.d, b.d), big))]
XSub(a, b) == XAdd(a, XNeg(b))
\* bound of the error of a product inherited from its factors
ErrMul(a, b) == IF a.d[1] = 0 THEN (IF b.d[1] = 0 THEN Zero ELSE PMul(b.d, Abs(a.v)))
                ELSE PAdd(PMul(a.d, IF b.d[1] = 0 THEN Abs(b.v) ELSE PAdd(Abs(b.v), b.d)), IF b.d[1] = 0 THEN Zero ELSE PMul(b.d, Abs(a.v)))
XMul(a, b) == IF Far(a) \/ Far(b) THEN XUnknown ELSE IF IsZero(a) \/ IsZero(b) THEN XZero
              ELSE LET v == PMul(a.v, b.v) IN XCapped([v |-> v, d |-> Rounded(v, ErrMul(a, b))])
\* the divisor must be known to be away from zero
XDiv(a, b) == IF Far(a) \/ Far(b) THEN XUnknown ELSE IF b.v[1] = 0 \/ (b.d[1] # 0 /\ Lt(Half(Abs(b.v)), b.d)) THEN XUnknown
              ELSE IF IsZero(a) THEN XZero
              ELSE LET i == PInv(IF b.d[1] = 0 THEN Abs(b.v) ELSE PSub(Abs(b.v), b.d))
                       v == PDiv(a.v, b.v)
                       n == IF b.d[1] = 0 THEN a.d ELSE PAdd(a.d, PMul(Abs(v), b.d))
                   IN  XCapped([v |-> v, d |-> Rounded(v, IF n[1] = 0 THEN Zero ELSE PMul(n, i))])
XSqrt(a) == IF Far(a) THEN XUnknown ELSE IF IsZero(a) THEN XZero
            ELSE IF a.v[1] <= 0 \/ Lt(a.v, a.d) THEN LET r == PSqrt(PAdd(Abs(a.v), a.d)) IN [v |-> Zero, d |-> PAdd(r, Ulp(r))]
            ELSE LET v == PSqrt(a.v) IN [v |-> v, d |-> Rounded(v, IF a.d[1] = 0 THEN Zero ELSE PMul(a.d, PInv(v)))]
\* relative rounding of a sum of n terms, associated in any order
Gamma(n) == Scale2(OfInt(n + 2), -24)
\* acc: value, sum of magnitudes, sum of errors
SumUp(acc, n) == IF E(acc[2]) > 127 \/ E(acc[3]) > 127 THEN XUnknown ELSE IF acc[2][1] = 0 /\ acc[3][1] = 0 THEN XZero
                 ELSE XCapped([v |-> acc[1], d |-> PAdd(PAdd(acc[3], PMul(PAdd(acc[2], acc[3]), Gamma(n))), Two2(TINY))])
\* the sum of s, of m times x, in all n terms
XSumOf(s, m, x, n) ==
  LET r == FoldLeft(LAMBDA acc, y : <<PAdd(acc[1], y.v), PAdd(acc[2], Abs(y.v)), PAdd(acc[3], y.d)>>, <<Zero, Zero, Zero>>, s)
      k == OfInt(m)
      y == PMul(k, x.v)
  IN  IF n = 1 THEN (IF m = 1 THEN x ELSE s[1])
      ELSE SumUp(IF m = 0 THEN r ELSE <<PAdd(r[1], y), PAdd(r[2], Abs(y)), PAdd(r[3], PMul(k, x.d))>>, n)
XSum(s) == XSumOf(s, 0, XZero, Len(s))
\* base + sum over i of a[i]*b[i]
XDot(base, n, a(_), b(_)) ==
   SumUp(FoldLeft(LAMBDA acc, i : LET x == a(i)  y == b(i) IN
                                  IF Far(x) \/ Far(y) THEN <<acc[1], acc[2], Two2(FAR)>>
                                  ELSE IF IsZero(x) \/ IsZero(y) THEN acc
                                  ELSE LET q == PMul(x.v, y.v)
                                           r == IF x.d[1] = 0 /\ y.d[1] = 0 THEN Zero ELSE ErrMul(x, y)
                                       IN  <<PAdd(acc[1], q), PAdd(acc[2], Abs(q)), PAdd(acc[3], r)>>,
                  <<base.v, Abs(base.v), base.d>>, [i \in 1..n |-> i]), n + 1)

(* ---------------------------------------------------------------- elementary functions, trusted to 2^-20 relative *)
LIBREL(v) == Scale2(Abs(v), -20)
\* e^d - 1 is at most this, for d <= 1
Growth(d) == PAdd(d, PMul(d, d))
\* above 88.3 the result may also be the largest number an implementation clamps to, or infinite
XExp(x) == LET up == PAdd(x.v, x.d) IN
           IF Lt(up, OfInt(-200)) THEN [v |-> Zero, d |-> Two2(-200)]
           ELSE IF Lt(OfInt(200), up) THEN XUnknown
           ELSE LET v == IF Lt(x.v, OfInt(-200)) THEN Zero ELSE PExp(x.v)
                    d == IF x.d[1] = 0 THEN LIBREL(v)
                         ELSE IF Lt(x.d, One) THEN PAdd(PMul(v, Growth(x.d)), LIBREL(v))
                         ELSE LET w == PExp(up) IN PAdd(w, LIBREL(w))
                IN  [v |-> v, d |-> PAdd(IF Lt(<<740713267, -23>>, up) THEN MaxR(d, v) ELSE d, Two2(TINY))]
XPos(x) == Lt(Zero, x.v)
SignUnknown(x) == x.d[1] # 0 /\ Le(Abs(x.v), x.d)                   \* the exact value may have either sign

(* ---------------------------------------------------------------- acceptance of an observation *)
FLUSH == -120                                  \* results below 2^-120 may be flushed or denormal
\* within the bound; infinite only where the bound leaves single precision, not a number only where the bound says nothing
Near(o, x) == IF o[2] = 999 THEN IF o[1] = 0 THEN E(x.d) >= 127 ELSE LET b == PAdd(IF o[1] > 0 THEN x.v ELSE Neg(x.v), x.d) IN b[1] > 0 /\ E(b) >= 128
              ELSE LET d == Abs(PSub(o, x.v)) IN d[1] = 0 \/ E(d) <= FLUSH \/ Le(d, PAdd(x.d, Ulp(x.v)))
=============================================================================
