-------------------------------- MODULE TrainMC --------------------------------
(* Epochs of several optimizers over data sets of changing size, with the implementation's way of choosing samples: a     *)
(* pivot per optimizer, reset when the number of samples changes and shuffled cumulatively. Every epoch must be one of     *)
(* the partitions Train!Candidates allows. Histories are printed and replayed into the library.                             *)
EXTENDS Train, Json
CONSTANTS NS, BSS, MAXEP, ALLPERMS, NOPT
VARIABLES opt, cur, hist
vars == <<opt, cur, hist>>
Idle == [o |-> 0]
Perms(n) == IF ALLPERMS THEN {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j} ELSE {[i \in 1..n |-> n + 1 - i]}
Init == /\ opt \in [1..NOPT -> [bs : BSS, shuffle : BOOLEAN, pivot : {<<>>}]]
        /\ IF NOPT = 1 THEN TRUE ELSE (opt[1].shuffle # opt[2].shuffle) \/ opt[1].bs <= opt[2].bs
        /\ cur = Idle /\ hist = <<>>
Start == /\ cur = Idle /\ Len(hist) < MAXEP
         /\ \E o \in 1..NOPT, n \in NS :
              LET p0 == IF Len(opt[o].pivot) # n THEN [i \in 1..n |-> i] ELSE opt[o].pivot IN
              /\ \E q \in (IF opt[o].shuffle THEN Perms(n) ELSE {[i \in 1..n |-> i]}) : opt' = [opt EXCEPT ![o].pivot = [i \in 1..n |-> p0[q[i]]]]
              /\ cur' = [o |-> o, n |-> n, cnt |-> 0, left |-> 1..n, counts |-> <<>>]
              /\ hist' = Append(hist, [o |-> o, n |-> n])
Batch == /\ cur # Idle /\ cur.cnt < cur.n
         /\ LET b == BatchSize(opt[cur.o].bs, cur.n, cur.cnt)
                S == {opt[cur.o].pivot[i] : i \in (cur.cnt + 1)..(cur.cnt + b)}
            IN  /\ Assert(S \in Candidates(opt[cur.o].shuffle, opt[cur.o].bs, cur.n, cur.cnt, cur.left), "batch not allowed")
                /\ cur' = [cur EXCEPT !.cnt = @ + b, !.left = @ \ S, !.counts = Append(@, cur.cnt + b)]
         /\ UNCHANGED <<opt, hist>>
End == cur # Idle /\ cur.cnt = cur.n /\ cur' = Idle /\ UNCHANGED <<opt, hist>>
Next == Start \/ Batch \/ End
Spec == Init /\ [][Next]_vars
\* every sample exactly once; counts strictly increase to the total; the given order without shuffling
Complete == cur # Idle => /\ Cardinality(cur.left) = cur.n - cur.cnt
                          /\ (cur.cnt = cur.n => cur.left = {} /\ cur.counts[Len(cur.counts)] = cur.n)
                          /\ \A i \in 1..(Len(cur.counts) - 1) : cur.counts[i] < cur.counts[i + 1]
                          /\ (~opt[cur.o].shuffle => cur.left = (cur.cnt + 1)..cur.n)
Emit == (Len(hist) = MAXEP /\ cur = Idle) => PrintT(<<"BEH", ToJson([opts |-> [i \in 1..NOPT |-> [bs |-> opt[i].bs, shuffle |-> opt[i].shuffle]], hist |-> hist])>>)
=============================================================================
