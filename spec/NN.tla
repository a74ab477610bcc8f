---------------------------------- MODULE NN ----------------------------------
(* Networks: layout of the parameters, prediction, loss selection, backpropagation, update.                          *)
(* A network is [sizes, acts, loss, slot, p]: layer sizes (inputs first), activation names, name of the loss ("" is    *)
(* none), the derivative each layer will use in backpropagation (as the implementation stores it) and the flat         *)
(* parameter vector in the documented order: per layer biases, then row-major weights.                                  *)
EXTENDS Fun

NLayers(net) == Len(net.acts)
NIn(net, l) == net.sizes[l]
NOut(net, l) == net.sizes[l + 1]
CountParams(sizes) == FoldLeft(LAMBDA acc, l : acc + (sizes[l] + 1) * sizes[l + 1], 0, [i \in 1..(Len(sizes) - 1) |-> i])
Off(sizes, l) == CountParams(SubSeq(sizes, 1, l))                  \* parameters before layer l
BiasIdx(sizes, l, j) == Off(sizes, l) + j
WeightIdx(sizes, l, i, j) == Off(sizes, l) + sizes[l + 1] + (i - 1) * sizes[l + 1] + j
OutSize(net) == net.sizes[Len(net.sizes)]

(* ---------------------------------------------------------------- forward *)
LayerOut(net, l, x) ==
  LET o == TLCEval(Off(net.sizes, l))
      n == NOut(net, l)
      m == NIn(net, l)
      z == TLCEval([j \in 1..n |-> LET a(i) == x[i]
                                       b(i) == net.p[o + n + (i - 1) * n + j]
                                   IN  XDot(net.p[o + j], m, a, b)])
  IN  Act(net.acts[l], z)
\* <<input, output of layer 1, ..., output of the last layer>>
Forward(net, x) == FoldLeft(LAMBDA acc, l : Append(acc, TLCEval(LayerOut(net, l, acc[Len(acc)]))), <<x>>, [i \in 1..NLayers(net) |-> i])
Prediction(net, x) == LET f == Forward(net, x) IN f[Len(f)]

(* ---------------------------------------------------------------- loss selection *)
Matched(act, loss) == (act = "sigmoid" /\ loss = "binary_crossentropy") \/ (act = "softmax" /\ loss = "categorical_crossentropy")
\* what a network with this loss must use, whatever happened before
SlotsFor(acts, loss) == [l \in 1..Len(acts) |-> IF l = Len(acts) /\ Matched(acts[l], loss) THEN "linear" ELSE acts[l]]
\* as the implementation does it: all slots first, then the last one for a matched pair; an unknown name only clears the loss
SelectLoss(net, name) ==
  LET c == Canon(name, LossNames) IN
  IF c = "(unknown)" THEN [net EXCEPT !.loss = ""]
  ELSE LET all == [net EXCEPT !.loss = c, !.slot = net.acts]
           last == NLayers(net)
       IN  IF Matched(net.acts[last], c) THEN [all EXCEPT !.slot[last] = "linear"] ELSE all

(* ---------------------------------------------------------------- backpropagation *)
Outer(x, d) == [i \in 1..(Len(x) * Len(d)) |-> LET r == (i - 1) \div Len(d) c == ((i - 1) % Len(d)) + 1 IN XMul(x[r + 1], d[c])]
Gradient(net, x, t) ==
  LET f == TLCEval(Forward(net, x))
      L == NLayers(net)
      \* delta of layer l from the gradient of the loss w.r.t. its output
      step(acc, l) ==
         LET up == IF l = L THEN LossGrad(net.loss, f[L + 1], t)
                   ELSE LET o == TLCEval(Off(net.sizes, l + 1))
                            n == NOut(net, l + 1)
                        IN  TLCEval([i \in 1..NOut(net, l) |-> LET a(j) == acc.d[j]
                                                                   b(j) == net.p[o + n + (i - 1) * n + j]
                                                               IN XDot(XZero, n, a, b)])
             d == TLCEval(Back(net.slot[l], f[l + 1], up))
         IN  [d |-> d, g |-> TLCEval(d \o Outer(f[l], d)) \o acc.g]
      r == FoldLeft(step, [d |-> <<>>, g |-> <<>>], [i \in 1..L |-> L + 1 - i])
  IN  r.g

AddVec(p, d) == TLCEval([i \in 1..Len(p) |-> XAdd(p[i], d[i])])
=============================================================================
