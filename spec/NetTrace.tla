------------------------------- MODULE NetTrace -------------------------------
(* Recorded creations, saves and loads of networks. disk: what the archives hold; names: what resolves besides the built-in.  *)
EXTENDS NetFile, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nets, disk, names
vars == <<l, nets, disk, names>>
Chk(what, c) == IF c THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, what>>) /\ FALSE
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
With(f, id, v) == [i \in DOMAIN f \cup {id} |-> IF i = id THEN v ELSE f[i]]
Without(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]
Looks(what, net) == /\ Chk(<<what, "sizes", e.sizes, "instead of", net.sizes>>, e.sizes = net.sizes)
                    /\ Chk(<<what, "activations", e.acts, "instead of", net.acts>>, e.acts = net.acts)
                    /\ Chk(<<what, "parameters">>, e.p = net.p)
Lib == Is("lib") /\ UNCHANGED <<nets, disk>> /\ names' = {e.names[i] : i \in DOMAIN e.names}
Create == /\ Is("create") /\ UNCHANGED <<disk, names>>
          /\ Chk(<<"created", e.want_sizes>>, e.ok = ValidSizes(e.want_sizes))
          /\ IF ~e.ok THEN UNCHANGED nets ELSE
             LET net == [sizes |-> e.want_sizes, acts |-> [i \in DOMAIN e.want_acts |-> Resolve(e.want_acts[i], names)], p |-> e.p]
             IN  /\ Looks("created", net) /\ Chk("number of parameters", Len(e.p) = CountP(net.sizes))
                 /\ Chk("no loss yet", e.loss = "") /\ nets' = With(nets, e.id, net)
SetP == Is("setp") /\ UNCHANGED <<disk, names>> /\ nets' = [nets EXCEPT ![e.id].p = e.p]
\* files: name of the file a save wrote (anything else in the directory is listed too)
Name(fmt, s, i) == FoldLeft(LAMBDA acc, t : acc \o (CASE t = "%s" -> s [] t = "%d" -> ToString(i) [] OTHER -> t), "", fmt)
SameEntry(x, y) == /\ Chk(<<"entry name", x.name, y.name>>, x.name = y.name)
                   /\ Chk(<<x.name, "shape", x.shape, y.shape>>, x.shape = y.shape)
                   /\ Chk(<<x.name, "type", x.type, x.elem, x.endian>>, x.type = y.type /\ x.endian = y.endian /\ (y.elem # 0 => x.elem = y.elem))
                   /\ Chk(<<x.name, "order">>, ~x.fortran)
                   /\ Chk(<<x.name, "data", x.rows>>, x.words = y.words /\ x.rows = y.rows)
Save == /\ Is("save") /\ UNCHANGED <<nets, names>>
        /\ Chk(<<"file", e.wrote, Name(e.fmt, e.s, e.i)>>, e.wrote = <<Name(e.fmt, e.s, e.i)>>)
        /\ Looks("after saving", nets[e.id])
        /\ LET f == FileOf(nets[e.id]) IN
           /\ Chk(<<"entries", Len(e.entries)>>, Len(e.entries) = Len(f))
           /\ \A i \in DOMAIN f : SameEntry(e.entries[i], f[i])
           /\ disk' = With(disk, e.wrote[1], f)
Archive == Is("archive") /\ UNCHANGED <<nets, names>> /\ disk' = With(disk, e.file, e.entries)
Load == /\ Is("load") /\ UNCHANGED <<disk, names>>
        /\ LET r == LoadNet(disk[e.file], names) IN
           /\ Chk(<<"loaded", e.ok, "but it is a network:", r # <<>>, [i \in DOMAIN disk[e.file] |-> <<disk[e.file][i].type, disk[e.file][i].shape>>]>>, e.ok = (r # <<>>))
           /\ Chk(<<"leaked", e.leak>>, e.leak = <<0, 0, 0>>)
           /\ IF ~e.ok THEN UNCHANGED nets ELSE Looks("loaded", r[1]) /\ Chk("no loss yet", e.loss = "") /\ nets' = With(nets, e.id, r[1])
\* the predictions of two networks for the same inputs
Preds == /\ Is("preds") /\ UNCHANGED <<nets, disk, names>>
         /\ Chk("predictions", nets[e.a] = nets[e.b] => e.pa = e.pb)
Free == Is("free") /\ UNCHANGED <<disk, names>> /\ nets' = Without(nets, e.id)
TraceInit == l = 1 /\ nets = <<>> /\ disk = <<>> /\ names = {}
TraceNext == Lib \/ Create \/ SetP \/ Save \/ Archive \/ Load \/ Preds \/ Free
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
