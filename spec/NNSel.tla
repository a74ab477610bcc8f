-------------------------------- MODULE NNSel --------------------------------
(* Every sequence of loss selections; the implementation-like slots against the history-free definition, and the         *)
(* behaviours that are replayed into the library.                                                                       *)
EXTENDS NN, Json
CONSTANTS MAXSEL, PAIRS
DefaultPairs == {<<"tanh", "sigmoid">>, <<"relu", "softmax">>, <<"sigmoid", "linear">>, <<"softmax", "sigmoid">>, <<"softmax", "softmax">>, <<"softplus", "tanh">>}
Names == LossNames \cup {"mse", "mae", "mape", "nonsense"}
VARIABLES net, hist
vars == <<net, hist>>
Init == hist = <<>> /\ \E a \in PAIRS : net = [sizes |-> <<3, 4, 3>>, acts |-> a, loss |-> "", slot |-> <<"unset", "unset">>, p |-> <<>>]
Next == Len(hist) < MAXSEL /\ \E n \in Names : net' = SelectLoss(net, n) /\ hist' = Append(hist, n)
Spec == Init /\ [][Next]_vars
HistoryFree == net.loss # "" => net.slot = SlotsFor(net.acts, net.loss)
LastOneWins == hist # <<>> => net.loss = (LET c == Canon(hist[Len(hist)], LossNames) IN IF c = "(unknown)" THEN "" ELSE c)
Pure == net.sizes = <<3, 4, 3>> /\ net.p = <<>>
Emit == Len(hist) = MAXSEL => PrintT(<<"BEH", ToJson([acts |-> net.acts, hist |-> hist])>>)
=============================================================================
