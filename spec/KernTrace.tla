-------------------------------- MODULE KernTrace --------------------------------
(* Calls of the real operations: operands before, the result, and that nothing else was written.                             *)
EXTENDS Kern, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Chk(what, c) == IF c THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, what>>) /\ FALSE
Each(what, o, x) == /\ Chk("length", Len(o) = Len(x))
                    /\ IF \A i \in 1..Len(x) : Near(o[i], x[i]) THEN TRUE
                       ELSE LET i == CHOOSE i \in 1..Len(x) : ~Near(o[i], x[i])
                            IN  PrintT(<<"TRACE_INFO", l, what, "element", i, "observed", o[i], "specified", x[i]>>) /\ FALSE
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
Expected == LET a == LiftAll(e.a)  x == LiftAll(e.x)  s == LiftAll(e.s) IN
  CASE e.f = "matrix_vector" -> MatVec(e.n, e.m, LiftAll(e.w), x)
    [] e.f = "vector_matrix" -> VecMat(e.n, e.m, LiftAll(e.w), a, x)
    [] e.f = "outer" -> OuterOf(e.n, e.m, x, s)
    [] OTHER -> Elementwise(e.f, a, x, s)
Kernel == Is("kern") /\ Each(e.f, e.out, TLCEval(Expected)) /\ Chk("operands unchanged", e.same) /\ Chk("nothing else written", e.guard = 0)
TraceInit == l = 1
TraceNext == Kernel
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
