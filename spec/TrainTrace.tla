------------------------------ MODULE TrainTrace ------------------------------
(* Training histories recorded from the implementation: the parameters are seen at every progress callback and at the     *)
(* end of every epoch. Which samples a shuffled batch consists of is not observed: the specification finds it.             *)
EXTENDS Train, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nets, data, opts, cur
vars == <<l, nets, data, opts, cur>>
Chk(what, c) == IF c THEN TRUE ELSE PrintT(<<"TRACE_INFO", l, what>>) /\ FALSE
\* every element within its bound, else report the first that is not
Each(what, n, near(_, _), o, x) == IF \A i \in 1..n : near(o[i], x[i]) THEN TRUE
                                   ELSE LET i == CHOOSE i \in 1..n : ~near(o[i], x[i])
                                        IN  PrintT(<<"TRACE_INFO", l, what, "element", i, "observed", o[i], "specified", x[i]>>) /\ FALSE
e == T[l]
Is(name) == l <= Len(T) /\ e.ev = name /\ l' = l + 1
With(f, id, v) == [i \in DOMAIN f \cup {id} |-> IF i = id THEN v ELSE f[i]]
Without(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]
Has(f) == f \in DOMAIN e
None == [opt |-> 0]
Slots(net) == [net EXCEPT !.slot = SlotsFor(net.acts, net.loss)]

X(v) == XExact(v)
\* observed parameters: those that are no finite numbers may be anything from here on
Observed(p) == TLCEval([i \in 1..Len(p) |-> IF p[i][2] = 999 THEN XUnknown ELSE XExact(p[i])])
Net == /\ Is("net") /\ UNCHANGED <<data, opts, cur>>
       /\ nets' = With(nets, e.id, Slots([sizes |-> e.sizes, acts |-> e.acts, loss |-> e.loss, slot |-> <<>>, p |-> Observed(e.p)]))
SetP == Is("setp") /\ UNCHANGED <<data, opts, cur>> /\ nets' = [nets EXCEPT ![e.id].p = Observed(e.p)]
SetLoss == Is("loss") /\ UNCHANGED <<data, opts, cur>> /\ nets' = [nets EXCEPT ![e.id] = Slots([@ EXCEPT !.loss = e.loss])]
Data == /\ Is("data") /\ UNCHANGED <<nets, opts, cur>>
        /\ data' = With(data, e.id, [x |-> TLCEval([i \in DOMAIN e.x |-> LiftAll(e.x[i])]), y |-> TLCEval([i \in DOMAIN e.y |-> LiftAll(e.y[i])]),
                                     n |-> IF Has("n") THEN e.n ELSE Len(e.x), at |-> IF Has("n") THEN e.at ELSE [i \in DOMAIN e.x |-> i],
                                     bx |-> IF Has("n") THEN LiftAll(e.bx) ELSE <<>>, by |-> IF Has("n") THEN LiftAll(e.by) ELSE <<>>])
Opt == /\ Is("opt") /\ UNCHANGED <<nets, data, cur>>
       /\ Chk(<<"metrics", e.seen>>, e.seen = IF e.metrics = <<>> THEN <<nets[e.nn].loss>> ELSE e.metrics)
       /\ opts' = With(opts, e.id, NewOpt([kind |-> e.kind, nn |-> e.nn, bs |-> e.bs, shuffle |-> e.shuffle, metrics |-> e.seen,
              lr |-> X(e.lr), decay |-> X(e.decay), mom |-> X(e.mom), nest |-> e.nest, rho |-> X(e.rho),
              b1 |-> X(e.b1), b2 |-> X(e.b2), wd |-> X(e.wd)], Len(nets[e.nn].p)))
\* the public settings, between epochs; once shuffled, an order stays
Tune == Is("tune") /\ cur = None /\ UNCHANGED <<nets, data, cur>> /\ opts' = With(opts, e.id, [opts[e.id] EXCEPT !.bs = e.bs, !.shuffle = @ \/ e.shuffle])
FreeOpt == Is("freeopt") /\ UNCHANGED <<nets, data, cur>> /\ opts' = Without(opts, e.id)

Epoch == /\ Is("epoch") /\ cur = None /\ UNCHANGED <<nets, data, opts>>
         /\ cur' = [opt |-> e.opt, data |-> e.data, valid |-> e.valid, left |-> DOMAIN data[e.data].x, cnt |-> 0, b |-> 0, g |-> <<>>, g0 |-> <<>>, memo |-> <<>>]
O == opts[cur.opt]
N == nets[O.nn]
D == data[cur.data]
Total == D.n
Hinted(b) == {s \in {{e.hint[i] : i \in DOMAIN e.hint}} : s \subseteq cur.left /\ IF Blanks(D) THEN Cardinality(s) <= b ELSE Cardinality(s) = b}
\* the batch whose gradient was calculated at the last progress report, if any: the candidate sets, with a witness where given
Cands == IF cur.b = 0 THEN {{}}
         ELSE IF O.shuffle /\ Has("hint") THEN Hinted(cur.b)
         ELSE IF Blanks(D) THEN (IF O.shuffle THEN {} ELSE {Within(D, cur.cnt - cur.b, cur.b)})
         ELSE Candidates(O.shuffle, O.bs, Total, cur.cnt - cur.b, cur.left)
\* element j's parameter, velocity and accumulators if the pending batch was the samples q (a sequence)
ElemAfter(q, adv, j) == IF cur.b = 0 THEN [p |-> N.p[j], v |-> O.vel[j], r |-> O.r[j], s |-> O.s[j]] ELSE Rule(adv, j, MeanGrad(cur.g, q, cur.b, cur.g0, j), N.p[j])
\* the parameter seen; begin: another batch has begun after it
Seen(x, begin) == IF begin /\ HasMomentum(O) /\ O.nest THEN XAdd(x.p, XMul(O.mom, x.v)) ELSE x.p
\* the candidate batches that explain the parameters observed now, each with the elements it leads to
Matching(begin) ==
  LET adv == TLCEval(IF cur.b = 0 THEN O ELSE Advance(O))
      cs == TLCEval(Cands)
      single == Cardinality(cs) = 1
      n == Len(N.p)
      Quick(q) == \A j \in 1..Min2(3, n) : Near(e.p[j], Seen(ElemAfter(q, adv, j), begin))
      some == TLCEval({S \in cs : single \/ Quick(SetToSeq(S))})
      full == TLCEval({[S |-> S, adv |-> adv, q |-> LET q == TLCEval(SetToSeq(S)) IN TLCEval([j \in 1..n |-> ElemAfter(q, adv, j)])] : S \in some})
  IN  TLCEval({f \in full : \A j \in 1..n : LET x == Seen(f.q[j], begin) IN
                 IF Near(e.p[j], x) THEN TRUE ELSE IF single THEN Chk(<<"parameter", j, "observed", e.p[j], "specified", x>>, FALSE) ELSE FALSE})
\* one observation of the parameters, explained by f
Observe(begin, f, next) ==
  /\ opts' = [opts EXCEPT ![cur.opt] = [f.adv EXCEPT
        !.vel = TLCEval([j \in 1..Len(N.p) |-> IF begin /\ HasMomentum(O) THEN XMul(O.mom, f.q[j].v) ELSE f.q[j].v]),
        !.r = TLCEval([j \in 1..Len(N.p) |-> f.q[j].r]), !.s = TLCEval([j \in 1..Len(N.p) |-> f.q[j].s])]]
  /\ nets' = [nets EXCEPT ![O.nn].p = Observed(e.p)]
  /\ next
Batch == /\ Is("batch") /\ cur # None /\ UNCHANGED data
         /\ Chk(<<"progress", e.cnt, e.n>>, e.n = Total /\ e.cnt = cur.cnt + BatchSize(O.bs, Total, cur.cnt) /\ cur.cnt < Total)
         /\ Chk("number of parameters", Len(e.p) = Len(N.p))
         /\ LET M == Matching(TRUE) IN
            /\ Chk(<<"no set of remaining samples explains the update", "used so far", cur.cnt>>, M # {})
            /\ \E f \in M :
                 LET left == cur.left \ f.S
                     b == BatchSize(O.bs, Total, cur.cnt)
                     \* only the samples that may be in this batch
                     maybe == IF O.shuffle THEN left ELSE Within(D, cur.cnt, b)
                     net == TLCEval([N EXCEPT !.p = Observed(e.p)])
                 IN  Observe(TRUE, f, cur' = [cur EXCEPT !.left = left, !.cnt = @ + b, !.b = b, !.g0 = TLCEval(BlankGrad(net, D)),
                                                         !.g = TLCEval([i \in maybe |-> Gradient(net, D.x[i], D.y[i])])])
\* an epoch without progress reports, in the given order
BlindBatch(acc, k) ==
  LET o == acc.o
      cnt == k * o.bs
      b == BatchSize(o.bs, Total, cnt)
      o1 == TLCEval([o EXCEPT !.vel = BeginVel(o)])
      p1 == TLCEval([j \in 1..Len(acc.p) |-> InterimElem(o1, j, acc.p[j])])
      net == TLCEval([N EXCEPT !.p = p1])
      m == TLCEval(SpecMean(net, D, cnt, b))
      G(j) == m[j]
  IN  TLCEval(Step(o1, p1, G))
Blind(o, p) == FoldLeft(BlindBatch, [o |-> o, p |-> p], [k \in 1..((Total + o.bs - 1) \div o.bs) |-> k - 1])
Results(net) == LET V == data[cur.valid]
                    m == O.metrics
                IN  [i \in 1..Len(m) |-> MeanMetric(m[i], net, D)]
                    \o (IF cur.valid = 0 THEN <<>> ELSE [i \in 1..Len(m) |-> MeanMetric(m[i], net, V)])
ResultsOk == LET r == TLCEval(Results(TLCEval([N EXCEPT !.p = Observed(e.p)]))) IN
             /\ Chk(<<"number of results", Len(e.res), Len(r)>>, Len(e.res) = Len(r))
             /\ Each("result", Len(r), Near, e.res, r)
DoneRest == /\ Chk("other result slots untouched", e.guard = 0)
            /\ Chk("data untouched", e.dsame)
            /\ ResultsOk
Done == /\ Is("done") /\ cur # None /\ cur.cnt = Total /\ UNCHANGED data
        /\ LET M == Matching(FALSE) IN
           /\ Chk("no set of remaining samples explains the last update", M # {})
           /\ \E f \in M : Observe(FALSE, f, Chk("every sample used", cur.left = f.S) /\ cur' = None)
        /\ DoneRest
DoneBlind == /\ Is("doneblind") /\ cur # None /\ cur.cnt = 0 /\ UNCHANGED data
             /\ LET r == TLCEval(Blind(O, N.p)) IN
                /\ Chk("length", Len(e.p) = Len(r.p))
                /\ Each("parameter", Len(r.p), Near, e.p, r.p)
                /\ opts' = [opts EXCEPT ![cur.opt] = r.o]
                /\ nets' = [nets EXCEPT ![O.nn].p = Observed(e.p)]
             /\ cur' = None
             /\ DoneRest
\* a gradient asked for inside a user-defined optimizer's epoch
BGrad == /\ Is("bgrad") /\ cur # None /\ UNCHANGED <<nets, data, opts>>
         /\ Chk("sample counter", e.i1 = e.i0 + BatchSize(O.bs, Total, e.i0))
         /\ Chk("nothing but the gradient vector written", e.guard = 0 /\ e.same)
         /\ Chk("length", Len(e.g) = Len(N.p))
         /\ IF ~O.shuffle
            THEN \* the network does not change during this epoch: the specified mean of the batch from i0 is calculated once
                 LET known == e.i0 \in DOMAIN cur.memo IN
                 \E m \in {IF known THEN cur.memo[e.i0] ELSE SpecMean(N, D, e.i0, BatchSize(O.bs, Total, e.i0))} :
                     /\ Each("gradient", Len(m), Near, e.g, m)
                     /\ cur' = IF known THEN cur ELSE [cur EXCEPT !.memo = With(cur.memo, e.i0, m)]
            ELSE LET cs == TLCEval(IF Has("hint") THEN Hinted(BatchSize(O.bs, Total, e.i0))
                                   ELSE Candidates(TRUE, O.bs, Total, e.i0, cur.left))
                     b == BatchSize(O.bs, Total, e.i0)
                     g0 == TLCEval(BlankGrad(N, D))
                     Fits(g, q) == \A j \in 1..Len(N.p) : Near(e.g[j], MeanGrad(g, q, b, g0, j))
                 IN \E g \in {TLCEval([i \in cur.left |-> Gradient(N, D.x[i], D.y[i])])} :
                    \E fit \in {TLCEval({S \in cs : \E q \in {TLCEval(SetToSeq(S))} : Fits(g, q)})} :
                     /\ Chk("no set of remaining samples explains the gradient", fit # {})
                     /\ \E S \in fit : cur' = [cur EXCEPT !.left = @ \ S]
\* the end of such an epoch
DoneProbe == /\ Is("doneprobe") /\ cur # None /\ UNCHANGED <<nets, data, opts>> /\ cur' = None
             /\ e.all => Chk("every sample used", cur.left = {})
         /\ Chk("network untouched", e.p = <<>> \/ Observed(e.p) = N.p)
             /\ DoneRest
Eval == /\ Is("eval") /\ UNCHANGED <<nets, data, opts, cur>>
        /\ Chk("network, data and other slots untouched", e.same /\ e.guard = 0)
        /\ LET n == nets[e.nn]
               d == data[e.data]
           IN  /\ Chk("number of results", Len(e.res) = Len(e.metrics))
               /\ Each(e.metrics, Len(e.metrics), Near, e.res, TLCEval([i \in 1..Len(e.metrics) |-> MeanMetric(e.metrics[i], n, d)]))
Reset == Is("reset") /\ nets' = <<>> /\ data' = <<>> /\ opts' = <<>> /\ cur' = None
TraceInit == l = 1 /\ nets = <<>> /\ data = <<>> /\ opts = <<>> /\ cur = None
TraceNext == Net \/ SetP \/ SetLoss \/ Data \/ Opt \/ Tune \/ FreeOpt \/ Epoch \/ Batch \/ Done \/ DoneBlind \/ BGrad \/ DoneProbe \/ Eval \/ Reset
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
