---------------------------------- MODULE Kern ----------------------------------
(* The vector and matrix operations everything else is made of: what each element of the result is, whatever the length, the *)
(* registers used and the way the work is cut up.                                                                             *)
EXTENDS Err
Elementwise(f, a, x, s) ==
  [i \in 1..Len(a) |->
     CASE f = "accumulate" -> XAdd(a[i], x[i])
       [] f = "accumulate_unaligned" -> XAdd(a[i], x[i])
       [] f = "scale" -> XMul(a[i], s[1])
       [] f = "divide_by_scalar" -> XDiv(a[i], s[1])
       [] f = "saxpy" -> XAdd(XMul(s[1], x[i]), a[i])
       [] f = "saxpby" -> XAdd(XMul(s[1], x[i]), XMul(s[2], a[i]))
       [] f = "square_elements" -> XMul(x[i], x[i])]
\* n rows of m columns, row by row, in w
Entry(w, m, r, c) == w[(r - 1) * m + c]
MatVec(n, m, w, x) == [r \in 1..n |-> LET p(c) == Entry(w, m, r, c)  q(c) == x[c] IN XDot(XZero, m, p, q)]
VecMat(n, m, w, b, x) == [c \in 1..m |-> LET p(r) == Entry(w, m, r, c)  q(r) == x[r] IN XDot(b[c], n, p, q)]
OuterOf(n, m, x, y) == [k \in 1..(n * m) |-> XMul(x[(k - 1) \div m + 1], y[((k - 1) % m) + 1])]
=============================================================================
