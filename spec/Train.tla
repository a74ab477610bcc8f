--------------------------------- MODULE Train ---------------------------------
(* Optimizers: how an epoch is cut into batches, the batch gradient, and the update rules, one action per batch.         *)
(* An optimizer is a record [kind, nn, bs, shuffle, metrics, lr, decay, mom, nest, rho, b1, b2, wd, k, b1c, b2c,          *)
(* vel, r, s]; k counts its updates, lr is the current rate, b1c/b2c the powers of the betas.                             *)
EXTENDS NN, FiniteSets, FiniteSetsExt

\* 1e-7 and 1e-8, as single precision constants
EPS7 == EPSX
EPS8 == [v |-> <<720575940, -56>>, d |-> Two2(-50)]
Zeros(n) == [i \in 1..n |-> XZero]

NewOpt(cfg, nparams) == cfg @@ [k |-> 0, b1c |-> XOne, b2c |-> XOne, vel |-> Zeros(nparams), r |-> Zeros(nparams), s |-> Zeros(nparams)]

(* ---------------------------------------------------------------- batches *)
\* size of the next batch after cnt of n samples
BatchSize(bs, n, cnt) == Min2(bs, n - cnt)
\* the sets of samples the next batch may consist of: consecutive samples, or any remaining ones when shuffling
Candidates(shuffle, bs, n, cnt, left) ==
  LET b == BatchSize(bs, n, cnt) IN IF shuffle THEN kSubset(b, left) ELSE {(cnt + 1)..(cnt + b)}

(* ---------------------------------------------------------------- gradient of a batch *)
(* A data set is [n, x, y, at, bx, by]: n samples, of which those listed in x and y are at the positions at and all        *)
(* others, if any, are blanks: the sample bx with the target by.                                                          *)
Blanks(d) == d.n # Len(d.x)
\* the listed samples among b samples after cnt
Within(d, cnt, b) == {k \in DOMAIN d.x : d.at[k] > cnt /\ d.at[k] <= cnt + b}
BlankGrad(net, d) == IF Blanks(d) THEN Gradient(net, d.bx, d.by) ELSE <<>>
\* element j of the mean over b samples: those of the sequence q, with gradients g, and b - Len(q) blanks, with gradient g0
MeanGrad(g, q, b, g0, j) == XDiv(XSumOf([i \in 1..Len(q) |-> g[q[i]][j]], b - Len(q), IF b = Len(q) THEN XZero ELSE g0[j], b), XInt(b))
\* the mean gradient of b consecutive samples after cnt
SpecMean(net, d, cnt, b) ==
  CHOOSE m \in {LET q == TLCEval(SetToSeq(Within(d, cnt, b)))
                    g == TLCEval([k \in {q[i] : i \in DOMAIN q} |-> Gradient(net, d.x[k], d.y[k])])
                    g0 == TLCEval(IF b = Len(q) THEN <<>> ELSE BlankGrad(net, d))
                IN  TLCEval([j \in 1..Len(net.p) |-> MeanGrad(g, q, b, g0, j)])} : TRUE

(* ---------------------------------------------------------------- rules *)
HasMomentum(o) == o.kind \in {"sgd", "rmsprop"} /\ XPos(o.mom)
\* what happens before a batch's gradient is calculated
BeginVel(o) == IF HasMomentum(o) THEN TLCEval([j \in 1..Len(o.vel) |-> XMul(o.mom, o.vel[j])]) ELSE o.vel
InterimElem(o, j, p) == IF HasMomentum(o) /\ o.nest THEN XAdd(p, o.vel[j]) ELSE p                      \* o after BeginVel
\* rate and counters of the k-th update (k from 0)
Advance(o) == [o EXCEPT !.lr = IF o.kind # "adam" /\ XPos(o.decay) THEN XMul(o.lr, XDiv(XOne, XAdd(XOne, XMul(o.decay, XExact(OfInt(o.k)))))) ELSE @,
                        !.k = @ + 1, !.b1c = XMul(@, o.b1), !.b2c = XMul(@, o.b2)]
\* element j: [p, v, r, s] after the update, o after Advance, g the batch gradient's element, p the parameter
Rule(o, j, g, p) ==
  CASE o.kind = "sgd" ->
         LET ng == XNeg(XMul(o.lr, g))
             v == IF HasMomentum(o) THEN XAdd(o.vel[j], ng) ELSE XZero
         IN  [p |-> XAdd(p, IF HasMomentum(o) /\ ~o.nest THEN v ELSE ng), v |-> v, r |-> XZero, s |-> XZero]
    [] o.kind \in {"adagrad", "rmsprop"} ->
         LET r == IF o.kind = "adagrad" THEN XAdd(o.r[j], XMul(g, g))
                  ELSE XAdd(XMul(o.rho, o.r[j]), XMul(XSub(XOne, o.rho), XMul(g, g)))
             d == XNeg(XDiv(XMul(o.lr, g), XAdd(EPS7, XSqrt(r))))
             v == IF HasMomentum(o) THEN XAdd(o.vel[j], d) ELSE XZero
         IN  [p |-> XAdd(p, IF HasMomentum(o) /\ ~o.nest THEN v ELSE d), v |-> v, r |-> r, s |-> XZero]
    [] o.kind = "adam" ->
         LET s == XAdd(XMul(o.b1, o.s[j]), XMul(XSub(XOne, o.b1), g))
             r == XAdd(XMul(o.b2, o.r[j]), XMul(XSub(XOne, o.b2), XMul(g, g)))
             d == XNeg(XDiv(XMul(o.lr, XDiv(s, XSub(XOne, o.b1c))), XAdd(XSqrt(XDiv(r, XSub(XOne, o.b2c))), EPS8)))
         IN  [p |-> XAdd(p, IF XPos(o.wd) THEN XSub(d, XMul(o.wd, p)) ELSE d), v |-> XZero, r |-> r, s |-> s]
\* all elements; the gradient G and the parameters p with their bounds
Step(o, p, G(_)) ==
  LET a == Advance(o)
      q == TLCEval([j \in 1..Len(p) |-> Rule(a, j, G(j), p[j])])
  IN  [p |-> TLCEval([j \in 1..Len(p) |-> q[j].p]),
       o |-> [a EXCEPT !.vel = TLCEval([j \in 1..Len(p) |-> q[j].v]), !.r = TLCEval([j \in 1..Len(p) |-> q[j].r]), !.s = TLCEval([j \in 1..Len(p) |-> q[j].s])]]

(* ---------------------------------------------------------------- evaluation *)
MeanMetric(name, net, d) == XDiv(XSumOf(TLCEval([i \in 1..Len(d.x) |-> Metric(name, Prediction(net, d.x[i]), d.y[i])]), d.n - Len(d.x),
                                        IF Blanks(d) THEN Metric(name, Prediction(net, d.bx), d.by) ELSE XZero, d.n), XInt(d.n))
=============================================================================
