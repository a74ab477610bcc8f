------------------------------- MODULE NpyTrace -------------------------------
(* Recorded saves and loads of arrays and of archives of arrays. disk: what each archive file holds; lists: the lists in     *)
(* memory.                                                                                                                   *)
EXTENDS Npy, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lists, disk
vars == <<l, lists, disk>>
Chk(what, c) == IF c THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, what>>) /\ FALSE
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
With(f, id, v) == [i \in DOMAIN f \cup {id} |-> IF i = id THEN v ELSE f[i]]
Without(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]

\* arrays as the driver writes them
Arr(x) == [shape |-> [i \in DOMAIN x.shape |-> Lit(x.shape[i])], type |-> x.type, elem |-> Lit(x.elem), endian |-> x.endian, fortran |-> x.fortran]
Same(what, seen, want) == /\ Chk(<<what, "shape", seen.shape, want.shape>>, seen.shape = want.shape)
                          /\ Chk(<<what, "type", seen.type, seen.elem, seen.endian, "instead of", want.type, want.elem, want.endian>>,
                                 seen.type = want.type /\ seen.elem = want.elem /\ seen.endian = want.endian)
                          /\ Chk(<<what, "order">>, seen.fortran = want.fortran)
\* a file that must hold the array x
FileHolds(f, x, data) ==
  /\ Chk(<<"not a well written file", Meaning(f).is>>, WellWritten(f))
  /\ Same("written", Meaning(f).a, Described(x))
  /\ Chk("data written", f.data = data)
\* the outcome of reading a file
Size(n) == BigOf(Lit(n))
Outcome(f, r) == LET m == Meaning(f) IN
  CASE m.is = "refuse" -> Chk("accepted what must be refused", ~r.ok)
    [] m.is = "unknown" -> TRUE
    [] m.is = "array" -> /\ Chk("length of the data", f.dlen = "?" \/ Size(f.dlen) = m.size)
                         /\ Chk("refused a valid file", r.ok)
                         /\ Same("read", Arr(r.a), m.a)
                         /\ Chk("data read", f.dlen = "?" \/ r.data = f.data)
                         /\ Chk("size reported", Size(r.size) = m.size)

Save == Is("save") /\ UNCHANGED <<lists, disk>> /\ FileHolds(e.file, Arr(e.a), e.data)
Read == Is("read") /\ UNCHANGED <<lists, disk>> /\ \A how \in {"load", "map"} \cap DOMAIN e : Outcome(e.file, e[how])
\* a file cut at every byte in the tried ranges
Cuts == /\ Is("cuts") /\ UNCHANGED <<lists, disk>>
        /\ Chk("a valid file to start from", e.file.kind # "npy" \/ Meaning(e.file).is = "array")
        /\ \A k \in DOMAIN e.accepted : Chk(<<"accepted although cut to", e.accepted[k], "of", e.file.len>>,
                IF e.file.kind = "npy" THEN CompleteAt(e.file, e.accepted[k]) ELSE e.accepted[k] >= e.file.len)
        /\ Chk(<<"complete file refused by", e.reader>>, e.whole)
        /\ Chk(<<"leaked", e.leak>>, e.leak = <<0, 0, 0>>)

(* ---------------------------------------------------------------- lists *)
Name(fmt, s, i) == FoldLeft(LAMBDA acc, t : acc \o (CASE t = "%s" -> s [] t = "%d" -> ToString(i) [] OTHER -> t), "", fmt)
Names(q) == [i \in DOMAIN q |-> q[i].name]
LNew == Is("lnew") /\ UNCHANGED disk /\ lists' = With(lists, e.id, <<>>)
LOp == /\ Is("lop") /\ UNCHANGED disk
       /\ LET x == [name |-> Name(e.fmt, e.s, e.i), a |-> Arr(e.a), data |-> e.data]
              q == IF e.op = "append" THEN Append(lists[e.id], x) ELSE <<x>> \o lists[e.id]
          IN  /\ Chk(<<"names", e.names, Names(q)>>, e.names = Names(q))
              /\ Chk(<<"length", e.len>>, e.len = Len(q))
              /\ lists' = [lists EXCEPT ![e.id] = q]
\* the user (or another program) leaves an array without a name
LForget == Is("lforget") /\ UNCHANGED disk /\ lists' = [lists EXCEPT ![e.id][e.at].name = "(none)"]
\* arrays without a name get one from their position; an archive cannot hold two of the same name: the first stays
Saved(q) == FoldLeft(LAMBDA acc, x : LET y == IF x.name = "(none)" THEN [x EXCEPT !.name = "arr_" \o ToString(Len(acc)) \o ".npy"] ELSE x
                                     IN  IF \E i \in DOMAIN acc : acc[i].name = y.name THEN acc ELSE Append(acc, y), <<>>, q)
Method(c) == IF c = -1 THEN 8 ELSE c
LSave == /\ Is("lsave") /\ UNCHANGED lists
         /\ LET q == Saved(lists[e.id]) IN
            /\ Chk(<<"reported", e.ret, "saved", Len(q)>>, e.ret = Len(q))
            /\ Chk(<<"entries", [i \in DOMAIN e.entries |-> e.entries[i].name], Names(q)>>, [i \in DOMAIN e.entries |-> e.entries[i].name] = Names(q))
            /\ \A i \in DOMAIN q : /\ FileHolds(e.entries[i].file, q[i].a, q[i].data)
                                   /\ Chk(<<"compression", e.entries[i].method, "asked", e.comp>>, e.entries[i].method = Method(e.comp))
            /\ disk' = With(disk, e.file, [i \in DOMAIN q |-> [name |-> q[i].name, a |-> Described(q[i].a), data |-> q[i].data]])
\* an archive written by another tool; entries that are no arrays are skipped
Entry(x) == [name |-> x.name, a |-> Meaning(x.file).a, data |-> x.file.data]
Foreign == /\ Is("foreign") /\ UNCHANGED lists
           /\ disk' = With(disk, e.file, LET good == SelectSeq(e.entries, LAMBDA x : Meaning(x.file).is = "array")
                                         IN  [i \in DOMAIN good |-> Entry(good[i])])
LLoad == /\ Is("lload") /\ UNCHANGED disk
         /\ LET q == disk[e.file] IN
            /\ Chk(<<"names loaded", [i \in DOMAIN e.got |-> e.got[i].name], Names(q)>>, [i \in DOMAIN e.got |-> e.got[i].name] = Names(q))
            /\ Chk(<<"length", e.len>>, e.len = Len(q))
            /\ \A i \in DOMAIN q : Same(q[i].name, Arr(e.got[i].a), q[i].a) /\ Chk(<<"data", q[i].name>>, e.got[i].data = q[i].data)
            /\ lists' = With(lists, e.id, q)
LFree == Is("lfree") /\ UNCHANGED disk /\ lists' = Without(lists, e.id)

TraceInit == l = 1 /\ lists = <<>> /\ disk = <<>>
TraceNext == Save \/ Read \/ Cuts \/ LNew \/ LOp \/ LForget \/ LSave \/ Foreign \/ LLoad \/ LFree
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
