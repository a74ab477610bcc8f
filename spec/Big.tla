---------------------------------- MODULE Big ----------------------------------
(* Natural numbers without a limit: limbs of four decimal digits, the least significant first, no zero limb at the end.     *)
EXTENDS Integers, Sequences, SequencesExt
BASE == 10000
Zero == <<>>
RECURSIVE Big(_)
Big(n) == IF n = 0 THEN Zero ELSE <<n % BASE>> \o Big(n \div BASE)
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
\* limbs that may be too large by a factor of BASE
Carry(s) == LET r == FoldLeft(LAMBDA acc, x : [out |-> Append(acc.out, (x + acc.c) % BASE), c |-> (x + acc.c) \div BASE], [out |-> <<>>, c |-> 0], s)
            IN  Trim(r.out \o Big(r.c))
BigAdd(a, b) == Carry([i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> Limb(a, i) + Limb(b, i)])
BigMul(a, b) == FoldLeft(LAMBDA acc, i : BigAdd(acc, [j \in 1..(i - 1) |-> 0] \o Carry([k \in DOMAIN a |-> a[k] * b[i]])), Zero, [i \in 1..Len(b) |-> i])
BigLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                 ELSE \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in DOMAIN a : j > i => a[j] = b[j]
\* from decimal digits (byte codes)
BigOf(ds) == FoldLeft(LAMBDA acc, c : BigAdd(BigMul(acc, Big(10)), Big(c - 48)), Zero, ds)
IntOf(a) == FoldLeft(LAMBDA acc, i : acc * BASE + a[Len(a) + 1 - i], 0, [i \in 1..Len(a) |-> i])
=============================================================================
