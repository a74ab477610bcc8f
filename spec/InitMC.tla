-------------------------------- MODULE InitMC --------------------------------
(* Every choice of initializers over every pair of activations, and a second initialization after it: the scheme of a     *)
(* layer is decided by its own name and activation and by the last call alone.                                           *)
EXTENDS Init, Json
ACTNAMES == BuiltinActs \cup {"dynamic@library"}
GIVEN == {"", "xavier", "kaiming", "he"}
Lists == {<<>>} \cup {<<a, b>> : a \in GIVEN, b \in GIVEN}
VARIABLES acts, calls, scheme
vars == <<acts, calls, scheme>>
Of(list, a) == [i \in 1..2 |-> Scheme(IF list = <<>> THEN "" ELSE list[i], a[i])]
Init == acts \in (ACTNAMES \X ACTNAMES) /\ calls = <<>> /\ scheme = <<"none", "none">>
Call(list) == Len(calls) < 2 /\ calls' = Append(calls, list) /\ scheme' = Of(list, acts) /\ UNCHANGED acts
Next == \E s \in Lists : Call(s)
Spec == Init /\ [][Next]_vars
\* the documented guide, written differently
Own(i) == LET g == IF calls[Len(calls)] = <<>> THEN "" ELSE calls[Len(calls)][i] IN
          scheme[i] = IF g = "xavier" \/ (g # "kaiming" /\ acts[i] \in {"sigmoid", "tanh", "softmax", "hard_sigmoid", "softsign"}) THEN "xavier"
                      ELSE IF g = "kaiming" \/ acts[i] \in {"relu", "softplus"} THEN "kaiming" ELSE "normal"
LastAlone == calls # <<>> => Own(1) /\ Own(2)
Emit == Len(calls) = 1 => PrintT(<<"BEH", ToJson([acts |-> acts, list |-> calls[1]])>>)
=============================================================================
