--------------------------------- MODULE NNMC ---------------------------------
(* Exhaustive check of NN on small networks: any sequence of loss selections followed by gradients and updates. The   *)
(* specified gradient is compared with central differences of the scalar loss (the metric of the same name; for the     *)
(* matched crossentropy pairs of the crossentropy itself), the layout with its declarative definition.                  *)
EXTENDS NN, FiniteSets
CONSTANTS SHAPES, ACTS, MAXSEL, WEIGHTS, XS
VARIABLES net, nsel, hist
vars == <<net, nsel, hist>>
Q(n) == Scale2(OfInt(n), -3)
Pseudo(i, s) == WEIGHTS[((i * 3 + s * 5) % Len(WEIGHTS)) + 1]
Shapes == SHAPES
Names == LossNames \cup {"mse", "mae", "mape", "nonsense"}
NewNet(sizes, acts, s) == [sizes |-> sizes, acts |-> acts, loss |-> "", slot |-> [i \in DOMAIN acts |-> "unset"],
                           p |-> [i \in 1..CountParams(sizes) |-> XExact(Q(Pseudo(i, s)))]]
Init == /\ \E sizes \in Shapes : \E acts \in [1..(Len(sizes) - 1) -> ACTS] : \E s \in 0..1 : net = NewNet(sizes, acts, s)
        /\ nsel = 0 /\ hist = <<>>
Select(name) == nsel < MAXSEL /\ net' = SelectLoss(net, name) /\ nsel' = nsel + 1 /\ hist' = Append(hist, name)
Next == \E name \in Names : Select(name)
Spec == Init /\ [][Next]_vars
View == <<net, nsel>>
-----------------------------------------------------------------------------
\* C12: whatever was selected before, the slots in force are those of a fresh network with the last loss
HistoryFree == net.loss # "" => net.slot = SlotsFor(net.acts, net.loss) /\ net.loss = Canon(hist[Len(hist)], LossNames)
UnknownClears == hist # <<>> /\ Canon(hist[Len(hist)], LossNames) = "(unknown)" => net.loss = ""
\* C11: the layout numbers every parameter exactly once, biases first
Layout == LET sz == net.sizes
              ids == UNION {{BiasIdx(sz, l, j) : j \in 1..sz[l+1]} \cup {WeightIdx(sz, l, i, j) : i \in 1..sz[l], j \in 1..sz[l+1]} : l \in 1..NLayers(net)}
          IN  ids = 1..CountParams(sz)
\* C08: one value per unit; bounded activations stay in their range; softmax is a distribution
ForwardShape == \A k \in 0..1 : LET f == Forward(net, [i \in 1..net.sizes[1] |-> XExact(Q(XS[((i + k) % Len(XS)) + 1]))]) IN
   /\ Len(f) = Len(net.sizes) /\ \A l \in 1..Len(f) : Len(f[l]) = net.sizes[l]
   /\ \A l \in 1..NLayers(net) :
        /\ net.acts[l] \in {"sigmoid", "softmax", "hard_sigmoid", "relu", "exponential", "softplus"} => \A j \in DOMAIN f[l+1] : Le(Zero, f[l+1][j].v)
        /\ net.acts[l] \in {"sigmoid", "softmax", "hard_sigmoid", "tanh", "softsign"} => \A j \in DOMAIN f[l+1] : Le(Abs(f[l+1][j].v), One)
        /\ net.acts[l] = "softmax" => Near(XSum(f[l+1]).v, X2(One, Two2(-18)))
\* C10: the gradient is the derivative of the scalar loss. The scalar that CCE back-propagates is n times the metric;
\* unmatched crossentropies are defined by pred - target and excluded.
H == Scale2(One, -6)
X(k) == [i \in 1..net.sizes[1] |-> XExact(Q(XS[((i + k) % Len(XS)) + 1]))]
Target(k) == IF net.loss = "categorical_crossentropy" THEN [i \in 1..OutSize(net) |-> IF i = (k % OutSize(net)) + 1 THEN XOne ELSE XZero]
             ELSE IF net.loss = "binary_crossentropy" THEN [i \in 1..OutSize(net) |-> IF (i + k) % 2 = 0 THEN XOne ELSE XZero]
             ELSE [i \in 1..OutSize(net) |-> XExact(Q(XS[((2 * i + k) % Len(XS)) + 1] + 1))]
Scalar(n, x, t) == LET m == Metric(n.loss, Prediction(n, x), t) IN IF n.loss = "categorical_crossentropy" THEN XMul(m, XInt(Len(t))) ELSE m
Comparable == net.loss # "" /\ (net.loss \in {"binary_crossentropy", "categorical_crossentropy"} => Matched(net.acts[NLayers(net)], net.loss))
Derivative(n, x, t, i) == LET up == [n EXCEPT !.p[i] = XExact(PAdd(@.v, H))]
                              dn == [n EXCEPT !.p[i] = XExact(PSub(@.v, H))]
                          IN  PDiv(PSub(Scalar(up, x, t).v, Scalar(dn, x, t).v), Twice(H))
\* one-sided differences agree: the loss is smooth enough around this parameter for the comparison to mean something
Smooth(n, x, t, i) == LET up == PSub(Scalar([n EXCEPT !.p[i] = XExact(PAdd(@.v, H))], x, t).v, Scalar(n, x, t).v)
                          dn == PSub(Scalar(n, x, t).v, Scalar([n EXCEPT !.p[i] = XExact(PSub(@.v, H))], x, t).v)
                          d == PSub(up, dn)
                      IN  d[1] = 0 \/ E(d) <= Max2(E(up), E(dn)) - 4
GradientIsDerivative ==
   (Comparable /\ nsel = 1) =>
     \A k \in 0..1 :
       LET x == X(k) t == Target(k) g == TLCEval(Gradient(net, x, t)) IN
       /\ Len(g) = Len(net.p)
       /\ \A i \in 1..Len(g) : Smooth(net, x, t, i) =>
             LET d == Derivative(net, x, t, i)
                 diff == PSub(g[i].v, d)
             IN  diff[1] = 0 \/ E(diff) <= Max2(Max2(E(d) - 5, -9), E(g[i].d) + 1) \/ ~PrintT(<<"DIFF", i, g[i], d, diff>>)
\* the comparison above is not vacuous (checked as the negation's violation by the runner)
=============================================================================
