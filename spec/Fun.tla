-------------------------------- MODULE Fun --------------------------------
(* Activation functions, losses and metrics: definitions over numbers with error bounds (see Err). *)
EXTENDS Err

LIB == Two2(-20)                               \* absolute accuracy trusted of bounded library functions
BuiltinActs == {"softplus", "softsign", "hard_sigmoid", "exponential", "linear", "relu", "softmax", "sigmoid", "tanh"}
Bump == Two2(-17)

(* ---------------------------------------------------------------- functions loaded from libraries *)
\* "A", "B", "C": libraries with the same symbols but other functions (harness/acts.c compiled with another K);
\* a function is x (or x*x*x) times mul plus add, its derivative multiplies by pos where the output is positive, else by neg
LibK == [A |-> 1, B |-> 3, C |-> 5]
DynOf(k, sym) == CASE sym = "cube" -> [cube |-> TRUE, mul |-> OfInt(k), add |-> Zero, pos |-> OfInt(2 * k), neg |-> OfInt(3 * k), has |-> TRUE]
                   [] sym = "half" -> [cube |-> FALSE, mul |-> Half(OfInt(k)), add |-> Zero, pos |-> Half(OfInt(k)), neg |-> Half(OfInt(k)), has |-> TRUE]
                   [] sym = "bare" -> [cube |-> FALSE, mul |-> One, add |-> OfInt(k), pos |-> One, neg |-> One, has |-> FALSE]
                   [] sym = "relu" -> [cube |-> FALSE, mul |-> OfInt(7 * k), add |-> Zero, pos |-> OfInt(7 * k), neg |-> OfInt(7 * k), has |-> TRUE]
                   [] OTHER -> [cube |-> FALSE, mul |-> OfInt(-k), add |-> Zero, pos |-> OfInt(-k), neg |-> OfInt(-k), has |-> TRUE]
LongSym == "negate_all_of_the_outputs_of_the_layer_in_one_single_call"
DynSyms == {"cube", "half", "bare", "relu", LongSym}
ManyMax == 99
ManySyms == TLCEval([i \in 0..ManyMax |-> "f" \o ToString(i)])
DynIds == {l \o ":" \o s : l \in DOMAIN LibK, s \in DynSyms \cup {ManySyms[i] : i \in 0..ManyMax}}
DynTab == LET few == [p \in (DOMAIN LibK) \X DynSyms |-> DynOf(LibK[p[1]], p[2])]
              many(k, i) == [cube |-> FALSE, mul |-> One, add |-> OfInt(i * k), pos |-> OfInt((i + 1) * k), neg |-> OfInt((i + 1) * k), has |-> TRUE]
          IN  FoldLeft(LAMBDA t, l : t @@ [id \in {l \o ":" \o s : s \in DynSyms} |-> few[<<l, CHOOSE s \in DynSyms : id = l \o ":" \o s>>]]
                                       @@ [id \in {l \o ":" \o ManySyms[i] : i \in 0..ManyMax} |-> many(LibK[l], CHOOSE i \in 0..ManyMax : id = l \o ":" \o ManySyms[i])],
                       [x \in {} |-> 0], <<"A", "B", "C">>)
DYN == TLCEval(DynTab)
DynAct(id, x) == LET d == DYN[id] IN XAdd(XMul(IF d.cube THEN XMul(x, XMul(x, x)) ELSE x, XExact(d.mul)), XExact(d.add))
\* known to be one of two values
Either(a, b) == LET m == Half(PAdd(a, b)) IN [v |-> m, d |-> Abs(PSub(a, m))]
DynDer(id, a) == LET d == DYN[id] IN IF d.pos = d.neg THEN XExact(d.pos) ELSE IF SignUnknown(a) THEN Either(d.pos, d.neg)
                                     ELSE IF a.v[1] > 0 THEN XExact(d.pos) ELSE XExact(d.neg)
(* ---------------------------------------------------------------- activations *)
PSigm(x) == LET e == PExp(Neg(Abs(x)))                               \* exp(-|x|)
                p == PInv(PAdd(One, e))
            IN  IF x[1] >= 0 THEN p ELSE PMul(e, p)
Big(x) == E(x) > 7                                                   \* |x| >= 128
Sigm(x) == IF Big(x) THEN (IF x[1] > 0 THEN One ELSE Zero) ELSE PSigm(x)
C0_2 == PDiv(One, OfInt(5))
C2_5 == PDiv(OfInt(5), Two)
\* an error of d in the argument of a function with the given slope there, whose slope grows by e^(r d) at most within d, and never exceeds most
Through(d, slope, r, most) == IF d[1] = 0 THEN Zero ELSE LET rd == Scale2(d, r) IN
                              PMul(d, IF Lt(rd, One) THEN MinR(most, PMul(slope, PAdd(One, Growth(rd)))) ELSE most)
Act1(name, x) ==
  LET v == x.v
      d == x.d
  IN
  CASE name = "linear" -> x
    [] Far(x) -> XUnknown
    [] name = "relu" -> IF Le(d, v) THEN x ELSE IF Le(d, Neg(v)) THEN XZero ELSE [v |-> MaxR(v, Zero), d |-> d]
    [] name = "sigmoid" -> LET s == Sigm(v) IN [v |-> s, d |-> MinR(One, PAdd(LIB, Through(d, PMul(s, PSub(One, s)), 0, Two2(-2))))]
    [] name = "tanh" -> LET a == Abs(v)
                            t == IF Big(v) THEN One ELSE PSub(One, PMul(Two, PInv(PAdd(One, PExp(Twice(a))))))
                        IN  [v |-> IF v[1] >= 0 THEN t ELSE Neg(t), d |-> MinR(Two, PAdd(LIB, Through(d, PSub(One, PMul(t, t)), 1, One)))]
    [] name = "exponential" -> XExp(x)
    [] name = "softplus" -> LET y == PAdd(MaxR(v, Zero), IF Big(v) THEN Zero ELSE PLog(PAdd(One, PExp(Neg(Abs(v))))))
                            IN  [v |-> y, d |-> PAdd(MaxR(LIB, Scale2(y, -21)), Through(d, IF d[1] = 0 THEN Zero ELSE Sigm(v), 0, One))]
    [] name = "softsign" -> LET s == PDiv(v, PAdd(One, Abs(v)))
                                low == PAdd(One, MaxR(Zero, PSub(Abs(v), d)))
                            IN  [v |-> s, d |-> MinR(Two, PAdd(LIB, IF d[1] = 0 THEN Zero ELSE PDiv(d, PMul(low, low))))]
    [] name = "hard_sigmoid" -> IF Lt(PAdd(C2_5, Bump), PSub(v, d)) THEN XOne ELSE IF Lt(PAdd(v, d), Neg(PAdd(C2_5, Bump))) THEN XZero
                                ELSE [v |-> IF Lt(v, Neg(C2_5)) THEN Zero ELSE IF Lt(C2_5, v) THEN One ELSE PAdd(Half(One), PMul(C0_2, v)),
                                      d |-> MinR(One, PAdd(LIB, PMul(C0_2, d)))]
    [] OTHER -> DynAct(name, x)
MaxOf(s) == FoldLeft(LAMBDA acc, x : MaxR(acc, x.v), s[1].v, s)
MaxErr(s) == FoldLeft(LAMBDA acc, x : MaxR(acc, x.d), Zero, s)
\* relative error: arguments off by D each, rounding of the differences and of the sum, and of two exponentials
Softmax(s) == LET mx == MaxOf(s)
                  ds == TLCEval([i \in 1..Len(s) |-> PSub(s[i].v, mx)])
                  es == TLCEval([i \in 1..Len(s) |-> IF Lt(ds[i], OfInt(-110)) THEN Zero ELSE PExp(ds[i])])
                  inv == TLCEval(PInv(FoldLeft(LAMBDA acc, x : PAdd(acc, x), Zero, es)))
                  D == Twice(MaxErr(s))
                  rel == TLCEval(PAdd(PAdd(Two2(-18), Gamma(Len(s))), IF D[1] = 0 THEN Zero ELSE IF Lt(D, One) THEN Growth(D) ELSE Two2(10)))
              IN  TLCEval([i \in 1..Len(s) |-> LET v == PMul(es[i], inv) IN
                     [v |-> v, d |-> MinR(One, IF es[i][1] = 0 THEN (IF Lt(D, OfInt(10)) THEN Two2(TINY) ELSE One)
                                               ELSE IF Lt(D, One) THEN PAdd(Two2(TINY), PMul(v, PAdd(rel, Scale2(Abs(ds[i]), -22)))) ELSE One)]])
Act(name, s) == IF name = "softmax" THEN (IF \E i \in 1..Len(s) : Far(s[i]) THEN [i \in 1..Len(s) |-> XUnknown] ELSE Softmax(s)) ELSE TLCEval([i \in 1..Len(s) |-> Act1(name, s[i])])

\* factor the incoming gradient is multiplied by, from the activation's output
Der1(name, a) ==
  LET v == a.v
      d == a.d
      eps == Scale2(Abs(v), -23)
  IN
  CASE name = "linear" -> XOne
    [] Far(a) -> XUnknown
    [] name = "relu" -> IF Lt(d, v) THEN XOne ELSE IF Le(PAdd(v, d), Zero) THEN XZero ELSE Either(Zero, One)
    [] name = "sigmoid" -> LET m == PMul(v, PSub(One, v)) IN [v |-> m, d |-> PAdd(PAdd(Ulp(m), eps), IF d[1] = 0 THEN Zero ELSE PMul(d, PAdd(d, Abs(PSub(One, Twice(v))))))]
    [] name = "tanh" -> [v |-> PSub(One, PMul(v, v)), d |-> PAdd(eps, PAdd(Ulp(Half(One)), IF d[1] = 0 THEN Zero ELSE PMul(d, PAdd(d, Twice(Abs(v))))))]
    [] name = "exponential" -> a
    [] name = "softplus" -> LET y == XSub(XOne, XExp(XNeg(a))) IN IF Lt(One, y.d) THEN Either(Zero, One) ELSE y
    [] name = "softsign" -> LET c == XSub(XOne, XAbs(a)) IN XMul(c, c)
    [] name = "hard_sigmoid" -> IF d[1] = 0 THEN (IF v[1] <= 0 \/ Le(One, v) THEN XZero ELSE XExact(C0_2))
                                ELSE IF Lt(PAdd(d, Bump), v) /\ Lt(v, PSub(PSub(One, Bump), d)) THEN XExact(C0_2)
                                ELSE Either(Zero, C0_2)
    [] OTHER -> DynDer(name, a)
\* gradient through an activation whose output is a
Back(name, a, g) ==
  IF name = "softmax"
  THEN LET av(i) == a[i]  gv(i) == g[i]
           d == TLCEval(XDot(XZero, Len(a), av, gv))
       IN  TLCEval([i \in 1..Len(a) |-> XMul(a[i], XSub(g[i], d))])
  ELSE TLCEval([i \in 1..Len(a) |-> XMul(Der1(name, a[i]), g[i])])

(* ---------------------------------------------------------------- losses (derivative w.r.t. the prediction) and metrics *)
LossNames == {"mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy"}
MetricNames == LossNames \cup {"binary_accuracy", "categorical_accuracy"}
Short == [mse |-> "mean_squared_error", mae |-> "mean_absolute_error", mape |-> "mean_absolute_percentage_error"]
Canon(name, names) == IF name \in DOMAIN Short THEN Short[name] ELSE IF name \in names THEN name ELSE "(unknown)"
EPS == <<900719925, -53>>                     \* 1e-7
EPSX == [v |-> EPS, d |-> Two2(-47)]
HUNDRED == XInt(100)
\* sign of p - t with a tie counted as +1
SignTie(p, t) == LET d == PSub(p.v, t.v)
                     k == PAdd(p.d, t.d)
                 IN  IF Far(p) THEN XUnknown ELSE IF k[1] # 0 /\ Le(Abs(d), PAdd(k, Ulp(p.v))) THEN [v |-> Zero, d |-> One] ELSE IF d[1] >= 0 THEN XOne ELSE XNeg(XOne)
LossGrad(name, p, t) ==
  LET n == XInt(Len(p)) IN
  TLCEval([i \in 1..Len(p) |->
     CASE name = "mean_squared_error" -> XDiv(XTwice(XSub(p[i], t[i])), n)
       [] name = "mean_absolute_error" -> XDiv(SignTie(p[i], t[i]), n)
       [] name = "mean_absolute_percentage_error" -> XDiv(XMul(SignTie(p[i], t[i]), HUNDRED), XMul(XMax(t[i], EPSX), n))
       [] name = "categorical_crossentropy" -> XSub(p[i], t[i])
       [] name = "binary_crossentropy" -> XDiv(XSub(p[i], t[i]), n)])
XMean(s, n) == XDiv(XSum(s), XInt(n))
\* log of the clipped prediction and of its complement; the upper clip 1 - 1e-7 is 1 - 2^-23 in single precision
CLIPHI == PSub(One, Two2(-23))
CLIPLO == PSub(One, CLIPHI)
PClip(p) == MaxR(MinR(p, CLIPHI), EPS)
\* log of c in [lo, hi], with an error of d in c
LogWithin(c, d, lo, hi) ==
  LET v == PLog(c)
      k == IF d[1] = 0 THEN Zero
           ELSE IF Lt(d, Half(c)) THEN PDiv(d, PSub(c, d))
           ELSE PSub(PLog(MinR(PAdd(c, d), hi)), PLog(lo))
  IN  [v |-> v, d |-> PAdd(k, MaxR(Two2(-19), Scale2(Abs(v), -19)))]
LogP(p) == IF Far(p) THEN XUnknown ELSE LogWithin(PClip(p.v), p.d, EPS, CLIPHI)
Log1P(p) == IF Far(p) THEN XUnknown ELSE LogWithin(PSub(One, PClip(p.v)), p.d, CLIPLO, One)
\* nearest integer, halves away from zero
RoundHalf(x) == IF E(x) < 0 THEN 0 ELSE IF E(x) > 20 THEN 1000000 ELSE Round(x)
NearHalf(x) == x.d[1] # 0 /\ E(x.v) <= 20 /\ LET f == Abs(PSub(PSub(Abs(x.v), OfInt(RoundHalf(Abs(x.v)))), Half(One)))
                                                 h == Abs(PSub(PAdd(Abs(x.v), Half(One)), OfInt(RoundHalf(Abs(x.v)))))
                                             IN  Le(MinR(f, h), x.d)
ArgMax(s) == CHOOSE i \in 1..Len(s) : (\A j \in 1..Len(s) : Le(s[j].v, s[i].v)) /\ (\A j \in 1..(i-1) : Lt(s[j].v, s[i].v))
XHit(c) == IF c THEN XOne ELSE XZero
Metric(name, p, t) ==
  LET n == Len(p) IN
  CASE name = "mean_squared_error" -> XMean([i \in 1..n |-> LET d == XSub(p[i], t[i]) IN XMul(d, d)], n)
    [] name = "mean_absolute_error" -> XMean([i \in 1..n |-> XAbs(XSub(p[i], t[i]))], n)
    [] name = "mean_absolute_percentage_error" -> XMul(HUNDRED, XMean([i \in 1..n |-> XAbs(XDiv(XSub(t[i], p[i]), XMax(t[i], EPSX)))], n))
    [] name = "categorical_crossentropy" -> XNeg(XMean([i \in 1..n |-> XMul(t[i], LogP(p[i]))], n))
    [] name = "binary_crossentropy" -> XNeg(XMean([i \in 1..n |-> XAdd(XMul(t[i], LogP(p[i])), XMul(XSub(XOne, t[i]), Log1P(p[i])))], n))
    [] name = "binary_accuracy" ->
         LET hit(i) == IF NearHalf(p[i]) THEN Either(Zero, One)
                       ELSE XHit(RoundHalf(MinR(MaxR(t[i].v, Zero), One)) = RoundHalf(p[i].v))
         IN  XMean([i \in 1..n |-> hit(i)], n)
    [] name = "categorical_accuracy" ->
         LET mp == ArgMax(p)
             unsure == \E j \in 1..n : j # mp /\ LET k == PAdd(p[mp].d, p[j].d) IN k[1] # 0 /\ Le(PSub(p[mp].v, p[j].v), k)
         IN  IF unsure THEN Either(Zero, One) ELSE XHit(mp = ArgMax(t))
=============================================================================
