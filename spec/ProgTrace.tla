------------------------------- MODULE ProgTrace -------------------------------
(* What was written to standard output by single reports and by whole epochs of real optimizers.                             *)
EXTENDS Progress, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Chk(what, c) == IF c THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, what>>) /\ FALSE
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
\* one report
One == Is("bar") /\ Chk(<<"written", e.out>>, e.out \in Written(e.tty, e.cols, e.x, e.n, e.label)) /\ Chk("errors", e.err = "") /\ Chk("at once", e.late = "")
\* an epoch's reports, all of the same length
Epoch == /\ Is("epoch")
         /\ LET rs == Reports(e.n, e.bs)
                m == Len(e.out) \div Len(rs)
            IN  IF ~e.tty \/ Room(e.cols, e.label) < 1 THEN Chk("nothing to be written", e.out = "")
                ELSE /\ Chk(<<"length", Len(e.out)>>, Len(e.out) = Len(rs) * (Columns(e.cols) + 1))
                     /\ \A i \in DOMAIN rs : Chk(<<"report", i, SubSeq(e.out, (i - 1) * m + 1, i * m)>>, SubSeq(e.out, (i - 1) * m + 1, i * m) \in Written(e.tty, e.cols, rs[i], e.n, e.label))
         /\ Chk("errors", e.err = "")
         /\ Chk("at once", e.late = "")
TraceInit == l = 1
TraceNext == One \/ Epoch
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
