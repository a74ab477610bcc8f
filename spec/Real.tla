-------------------------------- MODULE Real --------------------------------
(* Plain real numbers for specifications of numeric code. TLC only has 32-bit integers, so a number is a pair <<m, e>>:   *)
(* the value is m * 2^e, with m = 0 or 2^29 <= |m| < 2^30. Observed floats are exactly such pairs; <<+-1, 999>> are the   *)
(* infinities and <<0, 999>> is NaN (they only occur in observations). Operations are accurate to about 2^-27 relative;   *)
(* Err keeps the bounds.                                                                                                   *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
P2(n) == Pow2[n + 1]
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
AbsI(a) == IF a >= 0 THEN a ELSE -a

(* ---------------------------------------------------------------- representation *)
Zero == <<0, 0>>
Finite(x) == x[2] # 999
IsNaN(x)  == x[2] = 999 /\ x[1] = 0
E(x) == IF x[1] = 0 THEN -400 ELSE x[2] + 30   \* |x| < 2^E(x), and >= 2^(E(x)-1) if not zero
ShiftUp(a) == LET a1 == IF a < 16384 THEN 16 ELSE 0
                  b1 == a * P2(a1)
                  a2 == IF b1 < 4194304 THEN 8 ELSE 0
                  b2 == b1 * P2(a2)
                  a3 == IF b2 < 67108864 THEN 4 ELSE 0
                  b3 == b2 * P2(a3)
                  a4 == IF b3 < 268435456 THEN 2 ELSE 0
                  b4 == b3 * P2(a4)
              IN a1 + a2 + a3 + a4 + (IF b4 < 536870912 THEN 1 ELSE 0)
\* normalize m * 2^e, |m| < 2^31
NormP(m, e) == IF m >= 1073741824 THEN <<m \div 2, e + 1>>
               ELSE IF m >= 536870912 THEN <<m, e>>
               ELSE LET s == ShiftUp(m) IN <<m * P2(s), e - s>>
Norm(m, e) == IF m = 0 THEN Zero
              ELSE IF m > 0 THEN NormP(m, e)
              ELSE LET p == NormP(-m, e) IN <<-p[1], p[2]>>
OfInt(n) == Norm(n, 0)
Two2(n) == <<536870912, n - 29>>               \* 2^n
Neg(x) == <<-x[1], x[2]>>
Abs(x) == <<AbsI(x[1]), x[2]>>
Scale2(x, n) == IF x[1] = 0 THEN x ELSE <<x[1], x[2] + n>>
Half(x) == Scale2(x, -1)
Twice(x) == Scale2(x, 1)

(* ---------------------------------------------------------------- arithmetic *)
AddTo(ma, ea, mb, d) == IF d > 30 THEN <<ma, ea>>
                        ELSE Norm(ma + (IF mb >= 0 THEN mb \div P2(d) ELSE -((-mb) \div P2(d))), ea)
PAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[2] >= b[2] THEN AddTo(a[1], a[2], b[1], a[2] - b[2])
              ELSE AddTo(b[1], b[2], a[1], b[2] - a[2])
MulM(x, y) == LET xh == x \div 32768
                  xl == x % 32768
                  yh == y \div 32768
                  yl == y % 32768
                  mid == xh * yl + xl * yh
              IN  xh * yh + (mid \div 32768)       \* x*y / 2^30, in [2^28, 2^30)
PMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero
              ELSE LET m == MulM(AbsI(a[1]), AbsI(b[1]))
                       s == IF (a[1] > 0) = (b[1] > 0) THEN 1 ELSE -1
                   IN  IF m >= 536870912 THEN <<s * m, a[2] + b[2] + 30>> ELSE <<s * 2 * m, a[2] + b[2] + 29>>
PSub(a, b) == PAdd(a, Neg(b))
PTwo == <<536870912, -28>>
\* 1/d for d = m 2^e: r0 from the upper 15 bits, then one Newton step
PInv(d) == LET m  == AbsI(d[1])
               r0 == Norm(1073741824 \div (m \div 16384 + 1), -30 - 14 - d[2])
               dd == <<m, d[2]>>
               r1 == PMul(r0, PSub(PTwo, PMul(dd, r0)))
               r2 == PMul(r1, PSub(PTwo, PMul(dd, r1)))
           IN  IF d[1] > 0 THEN r2 ELSE Neg(r2)
PDiv(a, b) == PMul(a, PInv(b))
\* comparison of the central values
Lt(a, b) == IF (a[1] < 0) # (b[1] < 0) THEN a[1] < 0 /\ (b[1] >= 0)
            ELSE IF a[1] = 0 \/ b[1] = 0 THEN a[1] < b[1]
            ELSE IF a[2] = b[2] THEN a[1] < b[1]
            ELSE IF a[1] > 0 THEN a[2] < b[2] ELSE a[2] > b[2]
Le(a, b) == ~Lt(b, a)
Eq(a, b) == a[1] = b[1] /\ (a[1] = 0 \/ a[2] = b[2])
\* total order on observed floats including infinities; not for NaN
OLt(a, b) == IF a[2] = 999 THEN a[1] < 0 /\ ~(b[2] = 999 /\ b[1] < 0)
             ELSE IF b[2] = 999 THEN b[1] > 0 ELSE Lt(a, b)

(* ---------------------------------------------------------------- elementary functions *)
LN2    == <<744261118, -30>>
LN2HI  == <<744259584, -30>>
LN2LO  == <<804234143, -49>>
LOG2E  == <<774541002, -29>>
One == OfInt(1)
Two == OfInt(2)
\* nearest integer of a value below 2^20 in magnitude
Round(x) == IF E(x) < 0 THEN 0
            ELSE LET h == -x[2]                         \* 0 < h <= 30
                     q == (AbsI(x[1]) + P2(h - 1)) \div P2(h)
                 IN  IF x[1] >= 0 THEN q ELSE -q
ExpC == << <<872628276, -45>>, <<872628276, -42>>, <<763549742, -39>>, <<572662306, -36>>, <<715827883, -34>>, <<715827883, -32>>, <<536870912, -30>>, <<536870912, -29>>, <<536870912, -29>> >>
MaxR(a, b) == IF Lt(a, b) THEN b ELSE a
MinR(a, b) == IF Lt(a, b) THEN a ELSE b
\* |x| below 2^20
PExp(x) == LET n == Round(PMul(x, LOG2E))
               rn == OfInt(n)
               r == PSub(PSub(x, PMul(rn, LN2HI)), PMul(rn, LN2LO))
               p == FoldLeft(LAMBDA acc, c : PAdd(PMul(acc, r), c), ExpC[1], Tail(ExpC))
           IN  <<p[1], p[2] + n>>
SQRT2 == <<759250125, -29>>
LogC == << <<660764199, -32>>, <<780903145, -32>>, <<954437177, -32>>, <<613566757, -31>>, <<858993459, -31>>, <<715827883, -30>>, <<536870912, -28>> >>
\* natural logarithm of x > 0
PLog(x) == LET f0 == <<x[1], -30>>                   \* [1/2, 1)
               small == Lt(f0, Half(SQRT2))
               f == IF small THEN Twice(f0) ELSE f0
               n == x[2] + 30 - (IF small THEN 1 ELSE 0)
               s == PDiv(PSub(f, One), PAdd(f, One))
               s2 == PMul(s, s)
               p == FoldLeft(LAMBDA acc, c : PAdd(PMul(acc, s2), c), LogC[1], Tail(LogC))
           IN  PAdd(PMul(s, p), PMul(OfInt(n), LN2))
PSqrt(x) == IF x[1] = 0 THEN Zero
            ELSE LET odd == x[2] % 2
                     y0 == <<759250125, (x[2] + 30 - odd) \div 2 - 30 + (IF odd = 1 THEN 1 ELSE 0)>>
                     step(y) == LET q == PAdd(y, PDiv(x, y)) IN Half(q)
                 IN  step(step(step(step(step(y0)))))
=============================================================================
