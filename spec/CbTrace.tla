-------------------------------- MODULE CbTrace --------------------------------
(* Recorded lives of callbacks: after every call, what changed on disk, what was written to stdout, and the stop flags.       *)
EXTENDS Callbacks, NetFile, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nets, opts, cbs, disk
vars == <<l, nets, opts, cbs, disk>>
Chk(what, c) == IF c THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, what>>) /\ FALSE
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
With(f, id, v) == [i \in DOMAIN f \cup {id} |-> IF i = id THEN v ELSE f[i]]
Without(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]
Net == /\ Is("net") /\ UNCHANGED <<opts, cbs, disk>>
       /\ nets' = With(nets, e.id, [sizes |-> e.sizes, acts |-> e.acts, p |-> e.p])
SetP == Is("setp") /\ UNCHANGED <<opts, cbs, disk>> /\ nets' = [nets EXCEPT ![e.id].p = e.p]
Opt == Is("opt") /\ UNCHANGED <<nets, cbs, disk>> /\ opts' = With(opts, e.id, [nn |-> e.nn, metrics |-> e.metrics])
FreeOpt == Is("freeopt") /\ UNCHANGED <<nets, cbs, disk>> /\ opts' = Without(opts, e.id)
\* the driver's own files
Old == Is("old") /\ UNCHANGED <<nets, opts, cbs>> /\ disk' = With(disk, e.file, [lines |-> e.lines])
RemoveFile == Is("rm") /\ UNCHANGED <<nets, opts, cbs>> /\ disk' = Without(disk, e.file)
LinesOf(f) == IF f \in DOMAIN disk THEN disk[f].lines ELSE <<>>
New == /\ Is("new") /\ UNCHANGED <<nets, opts, disk>>
       /\ Chk("creating a callback touches nothing", e.changed = <<>> /\ e.out = <<>>)
       /\ LET c == CASE e.kind = "es" -> NewStopper([idx |-> e.idx, greater |-> e.greater, patience |-> e.patience])
                     [] e.kind = "mc" -> NewCheckpointer([idx |-> e.idx, greater |-> e.greater, file |-> e.file, verbose |-> e.verbose])
                     [] e.kind = "log" -> NewLogger([file |-> e.file, start |-> e.start, silent |-> e.silent], LinesOf(e.file))
          IN cbs' = With(cbs, e.id, c)
Free == /\ Is("free") /\ UNCHANGED <<nets, opts, disk>> /\ cbs' = Without(cbs, e.id)
        /\ Chk("releasing a callback touches nothing", e.changed = <<>> /\ e.out = <<>>)

\* a value as printed: to six digits
SameValue(shown, v) == IF IsNaN(v) THEN IsNaN(shown)
                       ELSE ~IsNaN(shown) /\ (IF Mag(v) = 2139095040 \/ Mag(shown) = 2139095040 THEN shown = v ELSE Abs(Key(shown) - Key(v)) <= 90)
LineOk(where, x, n, names, vals) ==
  /\ Chk(<<where, "is no line of a log", x.raw>>, x.isline)
  /\ Chk(<<where, "epoch", x.epoch, "specified", n>>, x.epoch = <<n>>)
  /\ Chk(<<where, "time", x.time, e.t0, e.t1>>, (x.time - e.t0) % 86400 <= (e.t1 - e.t0) % 86400)
  /\ Chk(<<where, "names", x.names, "specified", names>>, x.names = names)
  /\ Chk(<<where, "number of values">>, Len(x.vals) = Len(names))
  /\ \A i \in DOMAIN names : Chk(<<where, names[i], "shown", x.vals[i], "value", vals[i]>>, SameValue(x.vals[i], vals[i]))
SameEntry(x, y) == /\ x.name = y.name /\ x.shape = y.shape /\ x.type = y.type /\ x.endian = y.endian /\ ~x.fortran /\ x.words = y.words /\ x.rows = y.rows
SameFile(x, net) == LET f == FileOf(net) IN Len(x) = Len(f) /\ \A i \in DOMAIN f : SameEntry(x[i], f[i])

RunStopper(c) == LET s == StepStopper(c, e.res[Index(c.cfg, Len(opts[e.opt].metrics), e.valid)]) IN
  /\ Chk(<<"stop flag", e.stop, "specified", s.stop, "monitored", e.res[Index(c.cfg, Len(opts[e.opt].metrics), e.valid)], "best", s.best>>, e.stop = s.stop)
  /\ Chk("nothing written", e.changed = <<>> /\ e.out = <<>>)
  /\ cbs' = [cbs EXCEPT ![e.id] = s] /\ UNCHANGED disk
\* the same results k times in a row
Runs == /\ Is("runs") /\ UNCHANGED <<nets, opts, disk>>
        /\ LET c == cbs[e.id]
               v == e.res[Index(c.cfg, Len(opts[e.opt].metrics), e.valid)]
               More(a, i) == LET s == TLCEval(StepStopper(a.s, v)) IN [s |-> s, first |-> IF a.first = 0 /\ s.stop THEN i ELSE a.first]
               r == FoldLeft(More, [s |-> c, first |-> 0], [i \in 1..e.k |-> i])
           IN  /\ Chk(<<"asks to stop after", e.first, "specified", r.first>>, e.first = r.first /\ e.stop = r.s.stop)
               /\ cbs' = [cbs EXCEPT ![e.id] = r.s]
        /\ Chk("results and network untouched, nothing written", e.same /\ e.changed = <<>> /\ e.out = <<>>)
RunCheckpointer(c) ==
  LET v == e.res[Index(c.cfg, Len(opts[e.opt].metrics), e.valid)]
      net == nets[opts[e.opt].nn]
      f == CheckpointFile(c)
  IN  /\ IF Saves(c, v)
         THEN /\ Chk(<<"saved files", [i \in DOMAIN e.changed |-> e.changed[i].file], "specified", f, "score", v, "best", c.best>>, Len(e.changed) = 1 /\ e.changed[1].file = f)
              /\ Chk("the file is the network of this epoch", e.changed[1].iszip /\ SameFile(e.changed[1].entries, net))
              /\ disk' = With(disk, f, [lines |-> <<>>])
         ELSE Chk(<<"files touched without an improvement", [i \in DOMAIN e.changed |-> e.changed[i].file], "score", v, "best", c.best>>, e.changed = <<>>) /\ UNCHANGED disk
      /\ Chk(<<"stdout", e.out>>, Len(e.out) <= (IF c.cfg.verbose /\ Saves(c, v) /\ c.best # <<>> THEN 1 ELSE 0))
      /\ cbs' = [cbs EXCEPT ![e.id] = StepCheckpointer(c, v)]
RunLogger(c) ==
  LET names == LineNames(opts[e.opt].metrics, e.valid)
      there == c.cfg.file # "(none)" /\ e.writable
  IN  /\ IF there
         THEN /\ Chk(<<"files written", [i \in DOMAIN e.changed |-> e.changed[i].file]>>, Len(e.changed) = 1 /\ e.changed[1].file = c.cfg.file)
              /\ Chk("earlier lines are kept", e.changed[1].kept)
              /\ Chk(<<"one line", Len(e.changed[1].added)>>, Len(e.changed[1].added) = 1)
              /\ LineOk("log", e.changed[1].added[1], c.next, names, e.res)
              /\ disk' = With(disk, c.cfg.file, [lines |-> Append(LinesOf(c.cfg.file), [epoch |-> <<c.next>>])])
         ELSE Chk("files touched", e.changed = <<>>) /\ UNCHANGED disk
      /\ Chk(<<"lines on stdout", Len(e.out)>>, Len(e.out) = IF c.cfg.silent THEN 0 ELSE 1)
      /\ \A i \in DOMAIN e.out : LineOk("stdout", e.out[i], c.next, names, e.res)
      /\ cbs' = [cbs EXCEPT ![e.id] = StepLogger(c)]
Run == /\ Is("run") /\ UNCHANGED <<nets, opts>>
       /\ Chk("results and network untouched", e.same)
       /\ LET c == cbs[e.id] IN CASE c.kind = "es" -> RunStopper(c) [] c.kind = "mc" -> RunCheckpointer(c) [] c.kind = "log" -> RunLogger(c)
\* the flags of all stoppers, asked for at any time
Flags == /\ Is("flags") /\ UNCHANGED <<nets, opts, cbs, disk>>
         /\ \A i \in DOMAIN e.ids : Chk(<<"stop flag of", e.ids[i]>>, e.flags[i] = cbs[e.ids[i]].stop)
Reset == Is("reset") /\ nets' = <<>> /\ opts' = <<>> /\ cbs' = <<>> /\ disk' = <<>>
TraceInit == l = 1 /\ nets = <<>> /\ opts = <<>> /\ cbs = <<>> /\ disk = <<>>
TraceNext == Net \/ SetP \/ Opt \/ FreeOpt \/ Old \/ RemoveFile \/ New \/ Free \/ Run \/ Runs \/ Flags \/ Reset
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
