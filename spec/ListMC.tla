--------------------------------- MODULE ListMC ---------------------------------
(* Every sequence of list operations up to a length: what an archive of the list must hold. Printed, and replayed.          *)
EXTENDS Npy, Json
CONSTANT K
VARIABLES q, hist
vars == <<q, hist>>
Formats == << <<"plain">>, <<"x_", "%s">>, <<"%s", "-", "%d", "end">>, <<"arr_1.npy">> >>
Name(fmt, s, i) == FoldLeft(LAMBDA acc, t : acc \o (CASE t = "%s" -> s [] t = "%d" -> ToString(i) [] OTHER -> t), "", fmt)
Init == q = <<>> /\ hist = <<>>
Op(op, f) == /\ Len(hist) < K
             /\ LET n == Len(hist)
                    x == [name |-> Name(f, "s", n), id |-> n]
                IN  /\ q' = IF op = "append" THEN Append(q, x) ELSE <<x>> \o q
                    /\ hist' = Append(hist, [op |-> op, fmt |-> f, i |-> n, at |-> 0])
Forget(i) == /\ Len(hist) < K /\ i \in DOMAIN q /\ q[i].name # "(none)"
             /\ q' = [q EXCEPT ![i].name = "(none)"] /\ hist' = Append(hist, [op |-> "forget", fmt |-> <<>>, i |-> 0, at |-> i])
Next == \/ \E op \in {"append", "prepend"} : \E k \in DOMAIN Formats : Op(op, Formats[k])
        \/ \E i \in 1..K : Forget(i)
Spec == Init /\ [][Next]_vars
Saved(s) == FoldLeft(LAMBDA acc, x : LET y == IF x.name = "(none)" THEN [x EXCEPT !.name = "arr_" \o ToString(Len(acc)) \o ".npy"] ELSE x
                                     IN  IF \E i \in DOMAIN acc : acc[i].name = y.name THEN acc ELSE Append(acc, y), <<>>, s)
SavedIsSound == LET s == Saved(q) IN
  /\ \A i, j \in DOMAIN s : i < j => s[i].name # s[j].name
  /\ Len(s) <= Len(q)
  /\ \A i, j \in DOMAIN s : i < j => \E a, b \in DOMAIN q : a < b /\ q[a].id = s[i].id /\ q[b].id = s[j].id
  /\ (\A i, j \in DOMAIN q : (i # j => q[i].name # q[j].name) /\ q[i].name # "(none)") => Len(s) = Len(q)
PrintIt == (Len(hist) = K \/ (Len(hist) > 0 /\ Len(hist) < K)) => PrintT(<<"BEH", ToJson([hist |-> hist])>>)
=============================================================================
