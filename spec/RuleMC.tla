-------------------------------- MODULE RuleMC --------------------------------
(* The update rules of Train, stepped as the trace specification steps them, against their closed forms: every sequence   *)
(* of gradients from a small set, for every kind and a grid of settings.                                                   *)
EXTENDS Train
CONSTANT STEPS
VARIABLES o, p, look, gs, lrs, ps
vars == <<o, p, look, gs, lrs, ps>>
Q(n) == Scale2(OfInt(n), -2)
GRADS == {Q(-3), Zero, Q(2), Q(7)}
B9 == PSub(One, PDiv(One, OfInt(10)))
X(v) == XExact(v)
Base == [nn |-> 1, bs |-> 1, shuffle |-> FALSE, metrics |-> <<>>, lr |-> X(Q(1)), decay |-> XZero, mom |-> XZero, nest |-> FALSE,
         rho |-> X(B9), b1 |-> X(B9), b2 |-> X(PSub(One, PDiv(One, OfInt(1000)))), wd |-> XZero]
Cfgs == {[Base EXCEPT !.decay = X(d), !.mom = X(m), !.nest = n] @@ [kind |-> "sgd"] : d \in {Zero, Q(2)}, m \in {Zero, Q(2), B9}, n \in BOOLEAN}
        \cup {[Base EXCEPT !.decay = X(d)] @@ [kind |-> "adagrad"] : d \in {Zero, Q(2)}}
        \cup {[Base EXCEPT !.decay = X(d), !.mom = X(m), !.nest = n, !.rho = X(h)] @@ [kind |-> "rmsprop"] : d \in {Zero, Q(2)}, m \in {Zero, B9}, n \in BOOLEAN, h \in {Q(2), B9}}
        \cup {[Base EXCEPT !.wd = X(w), !.b1 = X(b)] @@ [kind |-> "adam"] : w \in {Zero, Q(1)}, b \in {Zero, B9}}
Init == \E c \in Cfgs : o = NewOpt(c, 1) /\ p = <<XOne>> /\ look = One /\ gs = <<>> /\ lrs = <<>> /\ ps = <<One>>
Next == Len(gs) < STEPS /\ \E g \in GRADS :
          LET o1 == [o EXCEPT !.vel = BeginVel(o)]
              p1 == <<InterimElem(o1, 1, p[1])>>
              G(j) == X(g)
              r == Step(o1, p1, G)
          IN  o' = r.o /\ p' = r.p /\ look' = p1[1].v /\ gs' = Append(gs, g) /\ lrs' = Append(lrs, r.o.lr.v) /\ ps' = Append(ps, r.p[1].v)
Spec == Init /\ [][Next]_vars
K == Len(gs)
Pow(x, n) == FoldLeft(LAMBDA acc, i : PMul(acc, x), One, [i \in 1..n |-> i])
CloseP(a, b) == LET d == PSub((a), (b)) IN d[1] = 0 \/ E(d) <= Max2(Max2(E(a), E(b)), 0) - 17
SumOf(f(_)) == FoldLeft(LAMBDA acc, i : PAdd(acc, f(i)), Zero, [i \in 1..K |-> i])
Rate == (o.kind # "adam") => CloseP(o.lr.v, PDiv(Q(1), FoldLeft(LAMBDA acc, i : PMul(acc, PAdd(One, PMul(o.decay.v, OfInt(i - 1)))), One, [i \in 1..K |-> i])))
Count == o.k = K
\* the displacement each step applied before momentum
Disp(i) == IF o.kind = "sgd" THEN Neg(PMul((lrs[i]), gs[i]))
           ELSE LET rr == FoldLeft(LAMBDA acc, j : IF o.kind = "adagrad" THEN PAdd(acc, PMul(gs[j], gs[j])) ELSE PAdd(PMul(o.rho.v, acc), PMul(PSub(One, o.rho.v), PMul(gs[j], gs[j]))), Zero, [j \in 1..i |-> j])
                IN  Neg(PDiv(PMul((lrs[i]), gs[i]), PAdd(EPS7.v, PSqrt(rr))))
Velocity == (K > 0 /\ HasMomentum(o)) => LET f(i) == PMul(Pow(o.mom.v, K - i), Disp(i)) IN CloseP(o.vel[1].v, SumOf(f))
\* classical momentum and no momentum: parameters are the sum of the velocities / displacements
Position == (o.kind # "adam" /\ ~(HasMomentum(o) /\ o.nest)) =>
   LET vel(k) == IF HasMomentum(o) THEN FoldLeft(LAMBDA acc, i : PAdd(PMul(o.mom.v, acc), Disp(i)), Zero, [i \in 1..k |-> i]) ELSE Disp(k)
   IN  CloseP(p[1].v, PAdd(One, SumOf(vel)))
\* Nesterov: the new velocity is mom*old + displacement and is what the parameters move by in total
Nesterov == (K > 0 /\ HasMomentum(o) /\ o.nest) => CloseP(PSub(p[1].v, (ps[K])), o.vel[1].v) /\ CloseP(PSub(p[1].v, (look)), Disp(K))
\* Adam: moments are the bias-corrected exponential means; with a constant gradient the step is the learning rate
Moments == (o.kind = "adam") => LET f(i) == PMul(PMul(PSub(One, o.b1.v), Pow(o.b1.v, K - i)), gs[i])
                                    h(i) == PMul(PMul(PSub(One, o.b2.v), Pow(o.b2.v, K - i)), PMul(gs[i], gs[i]))
                                IN  CloseP(o.s[1].v, SumOf(f)) /\ CloseP(o.r[1].v, SumOf(h)) /\ CloseP(o.b1c.v, Pow(o.b1.v, K)) /\ CloseP(o.b2c.v, Pow(o.b2.v, K))
ConstantAdam == (o.kind = "adam" /\ K > 0 /\ \A i \in 1..K : gs[i] = gs[1]) =>
     LET d == PAdd(PSub(p[1].v, (ps[K])), PMul(o.wd.v, (ps[K])))
         want == IF gs[1][1] = 0 THEN Zero ELSE IF gs[1][1] > 0 THEN Neg(Q(1)) ELSE Q(1)
         x == PSub(d, want) IN x[1] = 0 \/ E(x) <= -9
Sound == \A x \in {p[1], o.vel[1], o.r[1], o.s[1], o.lr} : x.d[1] = 0 \/ E(x.d) < (IF o.kind = "adam" THEN -9 ELSE -15)
=============================================================================
