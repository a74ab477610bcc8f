-------------------------------- MODULE Init --------------------------------
(* What initializing a network means: the scheme of each layer, and what draws of a scheme look like.                    *)
(* A draw is judged by its normalized square: w*w*(in+out)/6 for Xavier, w*w*in/2 for Kaiming, w*w for the standard      *)
(* normal, so no square root is needed.  Over many draws, octile counts, the largest value, the mean square and the     *)
(* agreement of neighbouring signs must be those of the distribution (all bounds at six standard deviations or more).   *)
EXTENDS NN
XavierActs == {"sigmoid", "tanh", "softmax", "hard_sigmoid", "softsign"}
KaimingActs == {"relu", "softplus"}
Scheme(given, act) == IF given \in {"xavier", "kaiming"} THEN given
                      ELSE IF act \in XavierActs THEN "xavier"
                      ELSE IF act \in KaimingActs THEN "kaiming" ELSE "normal"
Kind(s) == IF s = "xavier" THEN "uniform" ELSE "gauss"
\* what a squared draw is multiplied by
Scale(s, ni, no) == CASE s = "xavier" -> PDiv(OfInt(ni + no), OfInt(6))
                      [] s = "kaiming" -> Half(OfInt(ni))
                      [] OTHER -> One
Square(w, scale) == PMul(PMul(w, w), scale)
\* squares of the octiles
Cut(s, k) == IF Kind(s) = "uniform" THEN PDiv(OfInt(k * k), OfInt(16))
             ELSE PDiv(OfInt(<<101531, 454937, 1323305>>[k]), OfInt(1000000))
CUTS == [s \in {"xavier", "kaiming", "normal"} |-> TLCEval([k \in 1..3 |-> Cut(s, k)])]
Octile(s, w, q) == (IF w[1] >= 0 THEN 4 ELSE 0) + (IF Lt(q, CUTS[s][1]) THEN 1 ELSE IF Lt(q, CUTS[s][2]) THEN 2 ELSE IF Lt(q, CUTS[s][3]) THEN 3 ELSE 4)
\* no draw can be further out than this
Possible(s, q) == IF Kind(s) = "uniform" THEN ~Lt(PAdd(One, Two2(-17)), q) ELSE Lt(q, OfInt(49))
\* counts of many draws: octiles, how many, sum of squares, largest square, agreeing neighbours (distance 1, 2)
NoDraws == <<<<0, 0, 0, 0, 0, 0, 0, 0>>, 0, Zero, Zero, 0, 0>>
Squares(ws, c) == TLCEval([j \in 1..Len(ws) |-> Square(ws[j], c)])
\* qs: the normalized squares of ws
Count(t, oct, ws, qs) ==
  LET n == Len(ws)
      same(d) == Cardinality({i \in 1..n - d : (ws[i][1] >= 0) = (ws[i + d][1] >= 0)})
  IN  <<TLCEval([k \in 1..8 |-> t[1][k] + Cardinality({j \in 1..n : oct[j] = k})]), t[2] + n, FoldLeft(LAMBDA a, x : TLCEval(PAdd(a, x)), t[3], qs),
        FoldLeft(LAMBDA a, x : TLCEval(MaxR(a, x)), t[4], qs), t[5] + same(1), t[6] + same(2)>>
Octiles8(s, ws, qs) == TLCEval([j \in 1..Len(ws) |-> Octile(s, ws[j], qs[j])])
Counted(o, ws, qs) == [t |-> Count(o.t, Octiles8(o.s, ws, qs), ws, qs), s |-> o.s, p1 |-> o.p1 + Max2(Len(ws) - 1, 0), p2 |-> o.p2 + Max2(Len(ws) - 2, 0)]
ISqrt(n) == CHOOSE r \in 0..46340 : r * r <= n /\ (r + 1) * (r + 1) > n
\* judgements about counts
Octiles(t) == \A k \in 1..8 : LET d == t[1][k] - t[2] \div 8 IN AbsI(d) <= 2 * ISqrt(t[2]) + 3              \* sd = 0.33 sqrt n
Signs(t, pairs, k) == AbsI(2 * t[k] - pairs) <= 6 * ISqrt(pairs) + 6
Reaches(s, t) == Kind(s) = "uniform" /\ t[2] >= 100 => Lt(PSub(One, PDiv(OfInt(50), OfInt(t[2]))), t[4])
Spread(s, t) == LET dev == PSub(PDiv(t[3], OfInt(t[2])), IF Kind(s) = "uniform" THEN PDiv(One, OfInt(3)) ELSE One)
                    sd6 == PDiv(OfInt(IF Kind(s) = "uniform" THEN 2 ELSE 9), OfInt(ISqrt(t[2])))
                IN  ~Lt(sd6, Abs(dev))
Tails(s, t) == Kind(s) = "gauss" /\ t[2] >= 8000 => Lt(OfInt(9), t[4])
=============================================================================
