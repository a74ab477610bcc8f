--------------------------------- MODULE SaveMC ---------------------------------
(* Saving a file over an existing one: a temporary file is written, closed and renamed. Processes may be killed before any     *)
(* step, any step may fail or write only a part. Histories of such saves are printed and replayed.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Saves, Chunks
VARIABLES target,      \* 0: absent; n > 0: the complete file of save n (or, 1, the one before); -1: anything else
          tmp,         \* chunks in the temporary file, -1: there is none
          pc, n, ok, hist
vars == <<target, tmp, pc, n, ok, hist>>
Steps == <<"create">> \o [i \in 1..Chunks |-> "write"] \o <<"close", "rename">>
Init == target \in {0, 1} /\ tmp = -1 /\ pc = 1 /\ n = 2 /\ ok = TRUE /\ hist = <<[old |-> target, fault |-> "", at |-> 0]>>
Over(fault, at) == /\ pc' = 1 /\ n' = n + 1 /\ tmp' = -1 /\ hist' = Append(hist, [old |-> 0, fault |-> fault, at |-> at])
Step == /\ n <= Saves + 1 /\ pc <= Len(Steps) /\ UNCHANGED <<n, ok, hist>> /\ pc' = pc + 1
        /\ tmp' = CASE Steps[pc] = "create" -> 0 [] Steps[pc] = "write" -> tmp + 1 [] Steps[pc] = "close" -> tmp [] OTHER -> -1
        /\ target' = IF Steps[pc] = "rename" THEN (IF tmp = Chunks THEN n ELSE -1) ELSE target
Finished == /\ n <= Saves + 1 /\ pc = Len(Steps) + 1 /\ UNCHANGED <<target>> /\ ok' = TRUE /\ Over("none", 0)
\* killed before step pc (or after the last): the temporary file stays behind
Kill == /\ n <= Saves + 1 /\ UNCHANGED target /\ ok' = FALSE /\ Over("kill", pc)
\* the step fails, a write perhaps after a part of it: the temporary file is removed, the save reports it and changes nothing
Fail == /\ n <= Saves + 1 /\ pc <= Len(Steps) /\ UNCHANGED target /\ ok' = FALSE
        /\ \E f \in (IF Steps[pc] = "write" THEN {"err", "errfrom", "short"} ELSE {"err"}) : Over(f, pc)
Next == Step \/ Finished \/ Kill \/ Fail
Spec == Init /\ [][Next]_vars
NeverDamaged == target # -1
NeverVanishes == [][target > 0 => target' > 0]_vars
OldOrNew == [][target' # target => target' = n]_vars
LaterSucceeds == [][n' > n /\ ok' => target' = n]_vars
PrintIt == n = Saves + 2 => PrintT(<<"BEH", ToJson([hist |-> hist, last |-> Len(Steps) + 1])>>)
=============================================================================
