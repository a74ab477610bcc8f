-------------------------------- MODULE MeanMC --------------------------------
(* The parallel loop behind the batch gradient and the evaluation: each thread accumulates its share of the samples into a  *)
(* private copy (reading and writing it in separate steps) and adds the copy to the shared result, atomically, at the end;    *)
(* the result is divided once by the number of samples. Every distribution of samples over threads and every interleaving.    *)
(* The variant without private copies (SHARED) is kept to show that the property is not vacuous: it fails.                     *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS THREADS, SAMPLES, SHARED
VARIABLES todo, acc, reg, pc, total, result
vars == <<todo, acc, reg, pc, total, result>>
Th == 1..THREADS
Val(s) == 2 ^ s                                \* distinct contributions: the sum shows exactly which samples were counted
Init == /\ \E share \in [1..SAMPLES -> Th] : todo = [t \in Th |-> {s \in 1..SAMPLES : share[s] = t}]
        /\ acc = [t \in Th |-> 0] /\ reg = [t \in Th |-> <<>>] /\ pc = [t \in Th |-> "work"] /\ total = 0 /\ result = -1
Cell(t) == IF SHARED THEN total ELSE acc[t]
Read(t) == /\ pc[t] = "work" /\ reg[t] = <<>> /\ todo[t] # {}
           /\ \E s \in todo[t] : reg' = [reg EXCEPT ![t] = <<s, Cell(t)>>] /\ todo' = [todo EXCEPT ![t] = @ \ {s}]
           /\ UNCHANGED <<acc, pc, total, result>>
Write(t) == /\ reg[t] # <<>> /\ reg' = [reg EXCEPT ![t] = <<>>]
            /\ LET v == reg[t][2] + Val(reg[t][1]) IN
               IF SHARED THEN total' = v /\ UNCHANGED acc ELSE acc' = [acc EXCEPT ![t] = v] /\ UNCHANGED total
            /\ UNCHANGED <<todo, pc, result>>
Join(t) == /\ pc[t] = "work" /\ todo[t] = {} /\ reg[t] = <<>> /\ pc' = [pc EXCEPT ![t] = "done"]
           /\ total' = (IF SHARED THEN total ELSE total + acc[t]) /\ UNCHANGED <<todo, acc, reg, result>>
Divide == /\ (\A t \in Th : pc[t] = "done") /\ result = -1 /\ result' = total /\ UNCHANGED <<todo, acc, reg, pc, total>>
Next == (\E t \in Th : Read(t) \/ Write(t) \/ Join(t)) \/ Divide
Spec == Init /\ [][Next]_vars
EverySampleOnce == result # -1 => result = 2 ^ (SAMPLES + 1) - 2
=============================================================================
