-------------------------------- MODULE FunMC --------------------------------
(* Consistency of the definitions in Fun over a grid: derivative factors are derivatives of the activations, loss        *)
(* gradients are derivatives of the metrics of the same name, ranges and names.                                          *)
EXTENDS Fun, FiniteSets
CONSTANTS GRID                                  \* grid points, in 1/8
DefaultGrid == {-40, -21, -13, -6, -1, 0, 2, 9, 20, 33}
VARIABLES f, a, b, c
vars == <<f, a, b, c>>
Q(n) == Scale2(OfInt(n), -3)
Init == /\ f \in (BuiltinActs \X {"act"}) \cup (LossNames \X {"loss"})
        /\ a \in GRID /\ b = 0 /\ c = 0
Next == c = 0 /\ b' \in GRID /\ c' \in {3, 8} /\ UNCHANGED <<f, a>>
Spec == Init /\ [][Next]_vars
H == Scale2(One, -7)
Close(x, d, slack) == LET r == PSub(x, d) IN r[1] = 0 \/ E(r) <= Max2(E(d) - 6, slack)
X == <<XExact(Q(a)), XExact(Q(b)), XExact(Q(c))>>
Shift(i, h) == [X EXCEPT ![i] = XExact(PAdd(@.v, h))]
G == <<XExact(Q(5)), XExact(Q(-3)), XExact(Q(7))>>
DotP(u, y) == FoldLeft(LAMBDA acc, i : PAdd(acc, PMul(u[i].v, y[i].v)), Zero, <<1, 2, 3>>)
Kink == f[1] \in {"relu", "hard_sigmoid"} /\ \E i \in 1..3 : X[i].v[1] = 0 \/ Eq(Abs(X[i].v), C2_5)
\* element i of the gradient through the activation is the directional derivative of G . act(x)
DerivativeOfActivation == (c # 0 /\ f[2] = "act" /\ ~Kink) =>
   LET g == Back(f[1], Act(f[1], X), G) IN
   \A i \in 1..3 : Close(g[i].v, PDiv(PSub(DotP(G, Act(f[1], Shift(i, H))), DotP(G, Act(f[1], Shift(i, Neg(H))))), Twice(H)), -10)
\* a matched pair is handled by the network; here the loss alone. Predictions in (0,1) for crossentropies, positive targets for MAPE
P == [i \in 1..3 |-> XExact(PAdd(PMul(PSigm(X[i].v), Q(7)), Scale2(One, -5)))]
TT == IF f[1] \in {"binary_crossentropy", "categorical_crossentropy"} THEN <<XOne, XZero, XZero>> ELSE <<XExact(Q(3)), XExact(Q(5)), XExact(Q(1))>>
PB(i, h) == [P EXCEPT ![i] = XExact(PAdd(@.v, h))]
Sharp == \E i \in 1..3 : LET d == PSub(P[i].v, TT[i].v) IN E(d) <= -6
DerivativeOfLoss == (c # 0 /\ f[2] = "loss" /\ ~Sharp) =>
   LET m(q) == Metric(f[1], q, TT).v
       num(i) == PDiv(PSub(m(PB(i, H)), m(PB(i, Neg(H)))), Twice(H))
       \* crossentropies are defined through the matching activation: (p - t) is the loss' derivative times p(1-p)
       want(i) == IF f[1] = "binary_crossentropy" THEN PMul(num(i), PMul(P[i].v, PSub(One, P[i].v))) ELSE num(i)
   IN  f[1] = "categorical_crossentropy" \/ \A i \in 1..3 : Close(LossGrad(f[1], P, TT)[i].v, want(i), -8)
Ranges == (c # 0 /\ f[2] = "act") =>
   LET y == Act(f[1], X) IN
   /\ f[1] \in {"sigmoid", "softmax", "hard_sigmoid", "relu", "exponential", "softplus"} => \A i \in 1..3 : Le(Zero, y[i].v)
   /\ f[1] \in {"sigmoid", "softmax", "hard_sigmoid", "tanh", "softsign"} => \A i \in 1..3 : Le(Abs(y[i].v), One)
   /\ f[1] = "softmax" => Near(XSum(y).v, X2(One, Two2(-18)))
MetricsSane == (c # 0 /\ f[2] = "loss") =>
   /\ ~Lt(Metric(f[1], P, TT).v, Zero)
   /\ f[1] \in {"mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error"} => Metric(f[1], TT, TT).v[1] = 0
   /\ Metric("binary_accuracy", TT, TT).v[1] # 0 /\ Metric("categorical_accuracy", TT, TT) = XOne
Names == /\ LossNames \subseteq MetricNames
         /\ \A n \in LossNames \cup DOMAIN Short : Canon(n, LossNames) \in LossNames /\ Canon(n, MetricNames) = Canon(n, LossNames)
         /\ Canon("MSE", LossNames) = "(unknown)"
=============================================================================
