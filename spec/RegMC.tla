-------------------------------- MODULE RegMC --------------------------------
(* A registry that remembers what it opened, under every sequence of lookups; the sequences are replayed.                *)
EXTENDS Registry, Json
CONSTANTS MAXLEN, FORGETFUL
N(s, l) == [sym |-> s, lib |-> l]
Names == {N("tanh", ""), N("relu", ""), N("nosuch", ""), N("", ""), N("cube", "a"), N("bare", "a"), N("relu", "a"), N("nosuch", "a"), N("", "a"),
          N("cube", "alink"), N("bare", "apath"), N("cube", "b"), N("half", "b"), N("cube", "cat"), N(LongSym, "b"), N("cube", "missing"), N("half", "text"), N("relu", "arel")}
VARIABLES records, hist, got          \* records: names that were opened, in order; got: what each lookup gave
vars == <<records, hist, got>>
Init == records = <<>> /\ hist = <<>> /\ got = <<>>
Find(n) == {i \in 1..Len(records) : records[i].name = n}
\* control: a registry that compares symbols only
FindBad(n) == {i \in 1..Len(records) : records[i].name.sym = n.sym}
Look(n) ==
  LET hit == IF FORGETFUL THEN FindBad(n) ELSE Find(n) IN
  /\ Len(hist) < MAXLEN
  /\ hist' = Append(hist, n)
  /\ IF n.lib = "" THEN got' = Append(got, Resolve(n)) /\ UNCHANGED records
     ELSE IF hit # {} THEN got' = Append(got, records[CHOOSE i \in hit : \A j \in hit : i <= j].id) /\ UNCHANGED records
     ELSE /\ got' = Append(got, Resolve(n))
          /\ records' = IF Resolve(n) = Unresolved THEN records ELSE Append(records, [name |-> n, id |-> Resolve(n)])
Next == \E n \in Names : Look(n)
Spec == Init /\ [][Next]_vars
Right == \A i \in 1..Len(hist) : got[i] = Resolve(hist[i])
\* the first record of a function names that function
NameBack == \A i \in 1..Len(got) : got[i] \in DynIds => \E j \in 1..Len(records) : records[j].id = got[i] /\ Resolve(records[j].name) = got[i]
Emit == Len(hist) = MAXLEN => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
