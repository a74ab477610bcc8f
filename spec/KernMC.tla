--------------------------------- MODULE KernMC ---------------------------------
(* A vector operation cut up into registers: whole registers of the widest kind while they fit, then of the next, then single *)
(* elements. Every element is done exactly once, none outside. STRICT: the loop stops one register early when it would fit    *)
(* exactly (harmless). SLOPPY: the control, a last register that does not fit.                                                *)
EXTENDS Integers, Sequences
CONSTANTS Max, Widths, SLOPPY
W16 == <<16, 8, 1>>
W8 == <<8, 1>>
W1 == <<1>>
VARIABLES n, k, i, done, strict
vars == <<n, k, i, done, strict>>
Init == n \in 1..Max /\ strict \in BOOLEAN /\ k = 1 /\ i = 0 /\ done = [j \in 0..(Max + 64) |-> 0]
Fits(w) == IF SLOPPY /\ w > 1 THEN i < n ELSE IF strict /\ w > 1 THEN i + w < n ELSE i + w <= n
Register == k <= Len(Widths) /\ Fits(Widths[k]) /\ i' = i + Widths[k]
            /\ done' = [j \in DOMAIN done |-> IF j >= i /\ j < i + Widths[k] THEN done[j] + 1 ELSE done[j]] /\ UNCHANGED <<n, k, strict>>
Narrower == k <= Len(Widths) /\ ~Fits(Widths[k]) /\ k' = k + 1 /\ UNCHANGED <<n, i, done, strict>>
Next == Register \/ Narrower
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inside == \A j \in DOMAIN done : done[j] <= 1 /\ (j >= n => done[j] = 0)
Complete == k > Len(Widths) => \A j \in 0..(n - 1) : done[j] = 1
Ends == <>(k > Len(Widths))
=============================================================================
