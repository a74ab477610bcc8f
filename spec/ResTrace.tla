------------------------------- MODULE ResTrace -------------------------------
(* Balanced histories played on the library over and over: every call's result, and what a round of them costs.          *)
EXTENDS Res, SequencesExt, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Chk(what, c) == IF c THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, what>>) /\ FALSE
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
\* <<state, well formed so far>>
Play(ops, ok) ==
  FoldLeft(LAMBDA acc, i : LET r == Step(acc[1], ops[i]) IN
             IF ~acc[2] THEN acc
             ELSE IF ~r[1] THEN <<acc[1], Chk(<<"call not possible here", i, ops[i]>>, FALSE)>>
             ELSE IF r[2] # ok[i] THEN <<acc[1], Chk(<<"result of call", i, ops[i], ok[i]>>, FALSE)>>
             ELSE <<TLCEval(After(acc[1], ops[i])), TRUE>>,
           <<[x \in {} |-> Empty], TRUE>>, [i \in 1..Len(ops) |-> i])
Life == /\ Is("life")
        /\ \E p \in {TLCEval(Play(e.ops, e.ok))} :
             /\ p[2]
             /\ Chk("the history is balanced", Balanced(p[1]))
             /\ Chk(<<"grows by", e.growth>>, e.growth[1] < 16 /\ e.growth[2] < 1 /\ e.growth[3] < 1)
TraceInit == l = 1
TraceNext == Life
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
