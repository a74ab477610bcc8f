---------------------------------- MODULE CbMC ----------------------------------
(* All score sequences up to length K over values around each other, infinities and NaN: the machines of Callbacks do what   *)
(* is stated about whole histories. The complete sequences are printed and replayed.                                         *)
EXTENDS Callbacks, Json
CONSTANTS K, Values, Patiences
VARIABLES seq, es, mc
vars == <<seq, es, mc>>
Cfgs == {[idx |-> 0, greater |-> g, patience |-> p] : g \in BOOLEAN, p \in Patiences}
Bits == {-2147483647 - 1, -1082130432, 0, 1, 1065353216, 1065353217, 2139095040, -8388608, 2143289344, -4194304, 1073741824, -1073741824}
Init == seq = <<>> /\ es = [c \in Cfgs |-> NewStopper(c)] /\ mc = [g \in BOOLEAN |-> [m |-> NewCheckpointer([idx |-> 0, greater |-> g, file |-> "f"]), held |-> 0]]
Next == /\ Len(seq) < K
        /\ \E v \in Values :
             /\ seq' = Append(seq, v)
             /\ es' = [c \in Cfgs |-> StepStopper(es[c], v)]
             /\ mc' = [g \in BOOLEAN |-> [m |-> StepCheckpointer(mc[g].m, v), held |-> IF Saves(mc[g].m, v) THEN Len(seq) + 1 ELSE mc[g].held]]
Spec == Init /\ [][Next]_vars
\* stated over the history alone
Improving(g, k) == IsNum(seq[k]) /\ \A j \in 1..(k - 1) : IsNum(seq[j]) => Better(g, seq[k], seq[j])
MustStop(c) == \E n \in 1..Len(seq) : n > c.patience /\ ~Improving(c.greater, n) /\ \A k \in 1..n : k >= n - c.patience => ~Improving(c.greater, k)
StopsExactly == \A c \in Cfgs : es[c].stop = MustStop(c)
Stays == [][\A c \in Cfgs : es[c].stop => es'[c].stop]_vars
\* the earliest epoch with the best score
BestEpoch(g) == IF \A k \in DOMAIN seq : IsNaN(seq[k]) THEN 0
                ELSE CHOOSE k \in DOMAIN seq : /\ IsNum(seq[k])
                                               /\ \A j \in DOMAIN seq : IsNum(seq[j]) => ~Better(g, seq[j], seq[k])
                                               /\ \A j \in 1..(k - 1) : IsNum(seq[j]) => Key(seq[j]) # Key(seq[k])
HoldsBest == \A g \in BOOLEAN : mc[g].held = BestEpoch(g)
FirstCounts == \A g \in BOOLEAN : Len(seq) >= 1 /\ IsNum(seq[1]) => mc[g].held >= 1
PrintIt == Len(seq) = K => PrintT(<<"BEH", ToJson([seq |-> seq])>>)
\* quick: -inf, -1, 1, the next after 1, inf, NaN
V6 == {-8388608, -1082130432, 1065353216, 1065353217, 2139095040, 2143289344}
V4 == {-1082130432, 0, 1065353216, 2143289344}
P5 == {-1, 0, 1, 2, 3}
=============================================================================
