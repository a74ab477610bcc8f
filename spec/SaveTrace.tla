------------------------------- MODULE SaveTrace -------------------------------
(* Recorded saves of networks, some of them killed or failing: what is in the file at every moment.                            *)
EXTENDS NetFile, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, disk
vars == <<l, disk>>
Chk(what, c) == IF c THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, what>>) /\ FALSE
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
SameEntry(x, y) == /\ x.name = y.name /\ x.shape = y.shape /\ x.type = y.type /\ x.endian = y.endian /\ ~x.fortran /\ x.words = y.words /\ x.rows = y.rows
\* a file as read back: [there, whole, entries]
Matches(x, f) == IF f = <<>> THEN ~x.there ELSE x.there /\ x.whole /\ Len(x.entries) = Len(f) /\ \A i \in DOMAIN f : SameEntry(x.entries[i], f[i])
NetOf(x) == [sizes |-> x.sizes, acts |-> x.acts, p |-> x.p]
\* the driver begins anew, without a file or with one saved without any fault
Begin == Is("begin") /\ disk' = <<>>
Save == /\ Is("save")
        /\ LET new == FileOf(NetOf(e)) IN
           /\ Chk(<<"outcome", e.outcome, e.mode, e.k>>, e.outcome \in (IF e.mode \in {"kill", "killafter"} THEN {"killed", "returned"} ELSE {"returned"}))
           \* the content of the file changes at most once, and what it is in the end is the old or the new network: so it was always one of them
           /\ Chk(<<"the file's content changed", e.changes, "times", e.mode, "at call", e.k>>, e.changes <= 1)
           /\ Chk(<<"the file is neither the old nor the new network", e.mode, "at call", e.k, e.after.there, e.after.whole>>,
                  IF e.changes = 0 THEN Matches(e.after, disk) ELSE Matches(e.after, new))
           /\ Chk("a save without a fault saves", e.mode = "none" => e.changes = 1)
           /\ Chk(<<"other files touched">>, e.others)
           /\ IF e.outcome = "returned"
              THEN /\ Chk(<<"the network in memory changed", e.mode, "at call", e.k>>, e.same)
                   /\ Chk(<<"a later save fails", e.mode, "at call", e.k>>, e.again /\ Matches(e.later, new))
                   /\ disk' = new
              ELSE disk' = IF e.changes = 0 THEN disk ELSE new
TraceInit == l = 1 /\ disk = <<>>
TraceNext == Begin \/ Save
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
