------------------------------- MODULE FunTrace -------------------------------
(* Calls of single activation, derivative, loss and metric functions, and of the name tables.                            *)
EXTENDS Fun, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ptr            \* ptr: <<kind, canonical name>> -> number of the function pointer seen first
vars == <<l, ptr>>
Chk(what, c) == IF c THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, what>>) /\ FALSE
\* every element within its bound, else report the first that is not
Each(what, n, near(_, _), o, x) == IF \A i \in 1..n : near(o[i], x[i]) THEN TRUE
                                   ELSE LET i == CHOOSE i \in 1..n : ~near(o[i], x[i])
                                        IN  PrintT(<<"TRACE_INFO", l, what, "element", i, "observed", o[i], "specified", x[i]>>) /\ FALSE
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
NearSeq(what, o, x) == /\ Chk(<<what, "length", Len(o), Len(x)>>, Len(o) = Len(x))
                       /\ LET y == TLCEval(x) IN Each(what, Len(y), Near, o, y)
FiniteWhere(o, x) == \A i \in 1..Len(x) : (E(PAdd(Abs(x[i].v), x[i].d)) < 128) => Chk(<<"finite", i>>, o[i][2] # 999)
Activation == /\ Is("act") /\ UNCHANGED ptr
              /\ Chk("wrote outside the vector", e.guard = 0)
              /\ LET y == Act(e.name, LiftAll(e.x)) IN NearSeq(e.name, e.y, y) /\ FiniteWhere(e.y, y)
              /\ (e.name = "softmax" => /\ \A i \in 1..Len(e.y) : Chk("non-negative", Le(Zero, e.y[i]))
                                        /\ Chk("sums to one", Near(FoldLeft(PAdd, Zero, e.y), [v |-> One, d |-> Two2(-18)])))
Derivative == /\ Is("der") /\ UNCHANGED ptr
              /\ Chk("wrote outside the vector", e.guard = 0 /\ e.asame)
              /\ NearSeq(<<"derivative of", e.name>>, e.r, Back(e.name, LiftAll(e.a), LiftAll(e.g)))
LossCall == /\ Is("lossv") /\ UNCHANGED ptr
            /\ Chk("wrote outside the vector", e.guard = 0 /\ e.isame)
            /\ NearSeq(e.name, e.r, LossGrad(e.name, LiftAll(e.p), LiftAll(e.t)))
MetricCall == /\ Is("metric") /\ UNCHANGED ptr
              /\ Chk("wrote to its arguments", e.guard = 0 /\ e.isame)
              /\ LET v == Metric(e.name, LiftAll(e.p), LiftAll(e.t)) IN Chk(<<e.name, "observed", e.r, "specified", v>>, Near(e.r, v))
\* name resolution: ptr is a number standing for the function pointer (0: none), back the name the pointer maps to
Lookup == /\ Is("name")
          /\ LET c == Canon(e.name, IF e.kind = "loss" THEN LossNames ELSE MetricNames)
                 key == <<e.kind, c>>
             IN  IF c = "(unknown)" THEN Chk("an unknown name resolves to nothing", e.ptr = 0) /\ UNCHANGED ptr
                 ELSE /\ Chk("resolves", e.ptr # 0)
                      /\ Chk(<<"maps back to its full name", e.back>>, e.back = c)
                      /\ Chk("one function per full name", \A k \in DOMAIN ptr : (ptr[k] = e.ptr) <=> (k = key))
                      /\ ptr' = [k \in DOMAIN ptr \cup {key} |-> IF k = key THEN e.ptr ELSE ptr[k]]
TraceInit == l = 1 /\ ptr = [k \in {} |-> 0]
TraceNext == Activation \/ Derivative \/ LossCall \/ MetricCall \/ Lookup
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
