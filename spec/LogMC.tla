--------------------------------- MODULE LogMC ----------------------------------
(* Histories of loggers over log files: created, run and released in any order. Epoch numbers of loggers that do not          *)
(* overlap are consecutive. The histories are printed and replayed.                                                          *)
EXTENDS Callbacks, Json
CONSTANTS K, Files, Starts, Loggers
VARIABLES logs, disk, hist, made
vars == <<logs, disk, hist, made>>
NoLine == [epoch |-> <<>>]
Line(n) == [epoch |-> <<n>>]
Olds == { <<>>, <<NoLine>>, <<Line(0)>>, <<Line(6)>>, <<Line(3), NoLine>>, <<NoLine, Line(41), Line(42)>>, <<Line(1000)>>, <<Line(-3)>> }
Init == /\ \E o \in Olds : disk = [f \in Files |-> o]
        /\ logs = <<>> /\ made = 0 /\ hist = <<[op |-> "old", file |-> "", start |-> 0, id |-> 0, old |-> disk]>>
Op(op, id, file, start) == Append(hist, [op |-> op, file |-> file, start |-> start, id |-> id, old |-> <<>>])
New == /\ made < Loggers
       /\ \E f \in Files, s \in Starts :
            /\ logs' = [i \in DOMAIN logs \cup {made + 1} |-> IF i = made + 1 THEN NewLogger([file |-> f, start |-> s], disk[f]) ELSE logs[i]]
            /\ hist' = Op("new", made + 1, f, s)
       /\ made' = made + 1 /\ UNCHANGED disk
Run == \E i \in DOMAIN logs : /\ disk' = [disk EXCEPT ![logs[i].cfg.file] = Append(@, Line(logs[i].next))]
                              /\ logs' = [logs EXCEPT ![i] = StepLogger(@)]
                              /\ hist' = Op("run", i, "", 0) /\ UNCHANGED made
Free == \E i \in DOMAIN logs : /\ logs' = [j \in DOMAIN logs \ {i} |-> logs[j]] /\ hist' = Op("free", i, "", 0) /\ UNCHANGED <<made, disk>>
Next == Len(hist) <= K /\ (New \/ Run \/ Free)
Spec == Init /\ [][Next]_vars
\* a line continues the numbering unless loggers of the file overlapped, or an explicit start was given
Ops(h) == {n \in DOMAIN h : TRUE}
Sequential(f) == \* at most one logger of this file at any time
   \A n \in DOMAIN hist : hist[n].op = "new" /\ hist[n].file = f =>
      \A m \in 1..(n - 1) : hist[m].op = "new" /\ hist[m].file = f => \E k \in m..n : hist[k].op = "free" /\ hist[k].id = hist[m].id
Implicit(f) == \A n \in DOMAIN hist : hist[n].op = "new" /\ hist[n].file = f => hist[n].start = 0
Numbered(f) == SelectSeq(disk[f], LAMBDA x : x.epoch # <<>>)
Consecutive == \A f \in Files : Sequential(f) /\ Implicit(f) => \A k \in 2..Len(Numbered(f)) : Numbered(f)[k].epoch[1] = Numbered(f)[k - 1].epoch[1] + 1
EarlierKept == [][\A f \in Files : Len(disk'[f]) >= Len(disk[f]) /\ SubSeq(disk'[f], 1, Len(disk[f])) = disk[f]]_vars
PrintIt == Len(hist) = K + 1 => PrintT(<<"BEH", ToJson([hist |-> hist])>>)
S2 == {0, 5}
S3 == {0, 5, -4}
=============================================================================
