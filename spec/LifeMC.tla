--------------------------------- MODULE LifeMC ---------------------------------
(* Every interleaving of the lives of several instances (created, run some times, released): each is as if it were alone.      *)
(* Instances are stoppers or checkpointers here; the printed interleavings are replayed with instances of every kind.          *)
EXTENDS Callbacks, Json
CONSTANTS N, Runs
VARIABLES st, at, hist, clock
vars == <<st, at, hist, clock>>
\* what instance i sees at time t
Score(i, t) == LET s == <<1065353216, 1073741824, 0, -1082130432, 2143289344, 1056964608, 1077936128>> IN s[((i * 3 + t * 5) % 7) + 1]
New(i) == NewStopper([idx |-> 0, greater |-> i % 2 = 0, patience |-> i - 1])
Init == st = [i \in 1..N |-> New(i)] /\ at = [i \in 1..N |-> 0] /\ hist = <<>> /\ clock = 0
Op(i) == /\ at[i] < Runs + 2 /\ at' = [at EXCEPT ![i] = @ + 1] /\ clock' = clock + 1
         /\ hist' = Append(hist, [i |-> i, op |-> IF at[i] = 0 THEN "new" ELSE IF at[i] = Runs + 1 THEN "free" ELSE "run", t |-> clock])
         /\ st' = [st EXCEPT ![i] = IF at[i] = 0 THEN New(i) ELSE IF at[i] = Runs + 1 THEN @ ELSE StepStopper(@, Score(i, clock))]
Next == \E i \in 1..N : Op(i)
Spec == Init /\ [][Next]_vars
Alone == \A i \in 1..N : st[i] = FoldLeft(LAMBDA acc, h : IF h.i = i /\ h.op = "run" THEN StepStopper(acc, Score(i, h.t)) ELSE acc, New(i), hist)
PrintIt == Len(hist) = N * (Runs + 2) => PrintT(<<"BEH", ToJson([hist |-> [k \in DOMAIN hist |-> <<hist[k].i, hist[k].op>>]])>>)
=============================================================================
