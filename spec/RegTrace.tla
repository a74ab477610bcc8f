------------------------------- MODULE RegTrace -------------------------------
(* Recorded lookups of activation names, and networks made with them, checked against Registry and NN.                   *)
EXTENDS Registry, NNTrace
VARIABLES ptrs             \* function (number of its pointer) -> the meaning it was given for
rvars == <<l, nets, ptrs>>
Lookup == /\ Is("lookup") /\ Same
          /\ \E id \in {Resolve(e.name)} :
             IF id = Unresolved THEN Chk("a name without a function resolves to nothing", e.p = 0) /\ UNCHANGED ptrs
             ELSE /\ Chk("resolves", e.p # 0)
                  /\ e.p \in DOMAIN ptrs => Chk(<<"the function of another name", ptrs[e.p]>>, ptrs[e.p] = id)
                  /\ ptrs' = [k \in DOMAIN ptrs \cup {e.p} |-> IF k = e.p THEN id ELSE ptrs[k]]
                  /\ Chk(<<"maps back to a name of the same function", e.back>>, Resolve(e.back) = id /\ e.bp = e.p)
                  /\ Chk("wrote outside the vector", e.guard = 0)
                  /\ NearSeq(<<"value of", id>>, e.y, Act(id, LiftAll(e.x)))
                  /\ Chk("derivative found exactly if there is one", e.d = Derivable(id))
                  /\ e.d => NearSeq(<<"derivative of", id>>, e.r, Back(id, LiftAll(e.y), LiftAll(e.g)))
\* a network whose layers carry such names; what does not resolve becomes linear
Make == /\ Is("make") /\ UNCHANGED ptrs
        /\ \E ids \in {TLCEval([i \in DOMAIN e.acts |-> LET r == Resolve(e.acts[i]) IN IF r = Unresolved THEN "linear" ELSE r])} :
             /\ Chk("created", e.ok)
             /\ Chk("layer sizes", e.shape = e.sizes)
             /\ \A i \in DOMAIN e.acts : Chk(<<"activation of layer", i, e.names[i]>>, Resolve(e.names[i]) = ids[i])
             /\ Put(e.id, [sizes |-> e.sizes, acts |-> ids, loss |-> "", slot |-> [i \in DOMAIN ids |-> "unset"], p |-> <<>>, dig |-> ""])
\* a new process
Fork == Is("fork") /\ nets' = <<>> /\ ptrs' = [k \in {} |-> ""]
RegInit == TraceInit /\ ptrs = [k \in {} |-> ""]
RegNext == ((SetP \/ Predict \/ SetLoss \/ Grad \/ Free) /\ UNCHANGED ptrs) \/ Lookup \/ Make \/ Fork
RegSpec == RegInit /\ [][RegNext]_rvars
=============================================================================
