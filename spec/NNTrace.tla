------------------------------- MODULE NNTrace -------------------------------
(* Histories of calls on networks recorded from the implementation, checked against NN.                              *)
EXTENDS NN, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nets          \* nets: id -> [sizes, acts, loss, slot, p, dig]; dig identifies the exact parameter bits
vars == <<l, nets>>
Chk(what, c) == IF c THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, what>>) /\ FALSE
\* every element within its bound, else report the first that is not
Each(what, n, near(_, _), o, x) == IF \A i \in 1..n : near(o[i], x[i]) THEN TRUE
                                   ELSE LET i == CHOOSE i \in 1..n : ~near(o[i], x[i])
                                        IN  PrintT(<<"TRACE_INFO", l, what, "element", i, "observed", o[i], "specified", x[i]>>) /\ FALSE
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
Known(id) == id \in DOMAIN nets
Put(id, net) == nets' = [i \in DOMAIN nets \cup {id} |-> IF i = id THEN net ELSE nets[i]]
Same == UNCHANGED nets
Resolved(a) == IF a \in BuiltinActs THEN a ELSE "linear"
ValidSizes(s) == Len(s) >= 2 /\ \A i \in 1..Len(s) : s[i] >= 1

Create == /\ Is("create")
          /\ Chk("accepted exactly the valid descriptions", e.ok = ValidSizes(e.sizes))
          /\ IF e.ok THEN /\ Chk("layer sizes", e.shape = e.sizes)
                          /\ Chk("activations", e.names = [i \in DOMAIN e.acts |-> Resolved(e.acts[i])])
                          /\ Chk("number of parameters", e.total = CountParams(e.sizes))
                          /\ Put(e.id, [sizes |-> e.sizes, acts |-> e.names, loss |-> "", slot |-> [i \in DOMAIN e.acts |-> "unset"],
                                        p |-> <<>>, dig |-> ""])
             ELSE Same
\* the driver writes the parameters into the structure itself
SetP == Is("setp") /\ Known(e.id) /\ Put(e.id, [nets[e.id] EXCEPT !.p = LiftAll(e.p), !.dig = e.dig])
GetP == /\ Is("getp") /\ Same
        /\ Chk("parameters in the documented order", LiftAll(e.p) = nets[e.id].p)
        /\ Chk("nothing else written", e.guard = 0)
        /\ Chk("network unchanged", e.dig = nets[e.id].dig)
Update == /\ Is("update")
          /\ Chk("length", Len(e.d) = Len(nets[e.id].p) /\ Len(e.p) = Len(e.d))
          /\ LET d == LiftAll(e.d)
                 p == nets[e.id].p
             IN  \A i \in 1..Len(p) : LET v == XAdd(p[i], d[i]) IN
                    IF ~Near(e.p[i], v) THEN Chk(<<"parameter", i, v, e.p[i]>>, FALSE) ELSE TRUE
          /\ Chk("update vector unchanged, nothing else written", e.dsame /\ e.guard = 0)
          /\ Put(e.id, [nets[e.id] EXCEPT !.p = LiftAll(e.p), !.dig = e.dig])
Pure(what) == /\ Chk(<<what, "modified the network">>, e.dig = nets[e.id].dig)
              /\ Chk(<<what, "modified its input">>, e.isame)
              /\ Chk(<<what, "wrote outside its output">>, e.guard = 0)
NearSeq(what, o, x) == /\ Chk(<<what, "length", Len(o), Len(x)>>, Len(o) = Len(x))
                       /\ LET y == TLCEval(x) IN Each(what, Len(y), Near, o, y)
Predict == /\ Is("predict") /\ Same
           /\ Pure("prediction")
           /\ NearSeq("prediction", e.y, Prediction(nets[e.id], LiftAll(e.x)))
\* repeated predictions are identical to the bit
Repeat == Is("repeat") /\ Same /\ Chk("repeated prediction differs", e.same) /\ Pure("prediction")
\* a batch (or any number of concurrent single predictions): row i belongs to sample i
Batch == /\ Is("batch") /\ Same
         /\ Pure("batch prediction")
         /\ Chk("one row per sample", Len(e.y) = Len(e.x))
         /\ \A s \in 1..Len(e.x) : NearSeq(<<"row", s>>, e.y[s], Prediction(nets[e.id], LiftAll(e.x[s])))
\* a batch of very many samples, all but a few of them zero: those few, the first zero one, and whether the others gave the same
Vast == /\ Is("vast") /\ Same
        /\ Pure("batch prediction")
        /\ Chk("samples that do not differ", e.alike)
        /\ NearSeq("a blank sample", e.by, Prediction(nets[e.id], [i \in 1..nets[e.id].sizes[1] |-> XZero]))
        /\ \A s \in 1..Len(e.x) : NearSeq(<<"row", e.at[s]>>, e.y[s], Prediction(nets[e.id], LiftAll(e.x[s])))
SetLoss == /\ Is("loss")
           /\ LET n == SelectLoss(nets[e.id], e.name) IN
              /\ Chk("loss in force", e.r = n.loss)
              /\ Put(e.id, n)
           /\ Chk("selecting a loss changed the parameters", e.dig = nets[e.id].dig)
Grad == /\ Is("grad") /\ Same
        /\ Pure("backpropagation")
        /\ NearSeq("gradient", e.g, Gradient([nets[e.id] EXCEPT !.slot = SlotsFor(nets[e.id].acts, nets[e.id].loss)], LiftAll(e.x), LiftAll(e.t)))
Free == Is("free") /\ nets' = [i \in DOMAIN nets \ {e.id} |-> nets[i]]
\* a network read back from a file
Load == /\ Is("load")
        /\ LET n == nets[e.of] IN
           /\ Chk("saved network loads", e.ok)
           /\ Chk("layer sizes", e.shape = n.sizes)
           /\ Chk("activations", e.names = n.acts)
           /\ Chk("parameters to the bit", e.dig = n.dig)
           /\ Chk("saving changed the network", e.ofdig = n.dig)
           /\ Put(e.id, [n EXCEPT !.loss = "", !.slot = [i \in DOMAIN n.acts |-> "unset"]])
Reset == Is("reset") /\ nets' = <<>>
TraceInit == l = 1 /\ nets = <<>>
TraceNext == Create \/ SetP \/ GetP \/ Update \/ Predict \/ Repeat \/ Batch \/ Vast \/ SetLoss \/ Grad \/ Free \/ Load \/ Reset
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
