--------------------------------- MODULE PredMC ---------------------------------
(* Threads predicting with one network at the same time: every call has its own work memory, writes it layer by layer and        *)
(* copies the last one to its own row. Every interleaving. With SHARED work memory the property fails (kept as a control).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS THREADS, LAYERS, SAMPLES, SHARED
VARIABLES work, at, todo, cur, out
vars == <<work, at, todo, cur, out>>
Th == 1..THREADS
\* layer l of the network, as a function that keeps samples apart
Layer(l, x) == x * 3 + l
Single(s) == IF LAYERS = 1 THEN Layer(1, s) ELSE IF LAYERS = 2 THEN Layer(2, Layer(1, s)) ELSE Layer(3, Layer(2, Layer(1, s)))
Mem(t) == IF SHARED THEN 1 ELSE t
Init == /\ work = [m \in Th |-> [l \in 0..LAYERS |-> 0]] /\ at = [t \in Th |-> 0] /\ cur = [t \in Th |-> 0]
        /\ \E share \in [1..SAMPLES -> Th] : todo = [t \in Th |-> {s \in 1..SAMPLES : share[s] = t}]
        /\ out = [s \in 1..SAMPLES |-> 0]
Begin(t) == /\ cur[t] = 0 /\ \E s \in todo[t] : /\ cur' = [cur EXCEPT ![t] = s] /\ todo' = [todo EXCEPT ![t] = @ \ {s}]
                                                /\ work' = [work EXCEPT ![Mem(t)][0] = s]
            /\ at' = [at EXCEPT ![t] = 1] /\ UNCHANGED out
Forward(t) == /\ cur[t] # 0 /\ at[t] <= LAYERS
              /\ work' = [work EXCEPT ![Mem(t)][at[t]] = Layer(at[t], work[Mem(t)][at[t] - 1])]
              /\ at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED <<cur, todo, out>>
Finish(t) == /\ cur[t] # 0 /\ at[t] = LAYERS + 1 /\ out' = [out EXCEPT ![cur[t]] = work[Mem(t)][LAYERS]]
             /\ cur' = [cur EXCEPT ![t] = 0] /\ UNCHANGED <<at, todo, work>>
Next == \E t \in Th : Begin(t) \/ Forward(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars
EqualsSingle == \A s \in 1..SAMPLES : out[s] # 0 => out[s] = Single(s)
AllDone == (\A t \in Th : cur[t] = 0 /\ todo[t] = {}) => \A s \in 1..SAMPLES : out[s] = Single(s)
=============================================================================
