-------------------------------- MODULE RunTrace --------------------------------
(* Runs of the same sessions under different circumstances: what is seen is a function of the session so far.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur, memo
vars == <<l, cur, memo>>
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
\* cur: the session that runs, as the sequence of its calls (each identified by its description)
Begin == Is("begin") /\ cur' = <<>> /\ memo' = (IF e.fresh THEN <<>> ELSE memo)
Step == /\ Is("step") /\ cur' = Append(cur, e.call)
        /\ IF cur' \in DOMAIN memo
           THEN (IF memo[cur'] = e.seen THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, <<"seen differently", e.what>>>>) /\ FALSE) /\ UNCHANGED memo
           ELSE memo' = [h \in DOMAIN memo \cup {cur'} |-> IF h = cur' THEN e.seen ELSE memo[h]]
TraceInit == l = 1 /\ cur = <<>> /\ memo = <<>>
TraceNext == Begin \/ Step
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
