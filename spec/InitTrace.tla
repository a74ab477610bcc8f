------------------------------- MODULE InitTrace -------------------------------
(* Recorded initializations between other calls on networks, checked against Init and NN.                               *)
EXTENDS Init, NNTrace
VARIABLES cnt, digs        \* cnt: what is counted -> counts; digs: <<seed, sizes, scheme per layer, position>> -> the exact parameters drawn
\* the numbers of rand() are given (seed -2): any weights of the scheme may come out of them
AnyDraws == e.seed = -2
ivars == <<l, nets, cnt, digs>>
N(x) == nets[x]
Given(i) == IF e.none THEN "" ELSE e.given[i]
FreshNeighbours(n) == 3 + (n * n) \div 4194304
Stale(old, new) == Cardinality({i \in 1..Len(new) : old[i].v = new[i].v})
Merge(c, k, v) == TLCEval([x \in DOMAIN c \cup {k} |-> IF x = k THEN v ELSE c[x]])
Layers(n) == [i \in 1..Len(n.acts) |-> i]
Distinct(ws) == Cardinality(TLCEval({<<ws[j][1], ws[j][2]>> : j \in 1..Len(ws)}))
LayerOk(i, s, ws, qs, no, ni) ==
  /\ Chk(<<"layer", i, "biases zero">>, \A j \in 1..no : e.b[i][j][1] = 0 /\ e.b[i][j][2] = 0)
  /\ Chk(<<"layer", i, "weights">>, Len(ws) = ni * no)
  /\ Chk(<<"layer", i, s, "out of range">>, \A j \in 1..Len(ws) : Finite(ws[j]) /\ Possible(s, qs[j]))
  /\ Chk(<<"layer", i, "weights drawn more than once">>, AnyDraws \/ Len(ws) - Distinct(ws) <= FreshNeighbours(Len(ws)))
NewDraws(i, q1, q0) == LET m == Min2(Len(q1), Len(q0)) IN
  Chk(<<"layer", i, "repeats the draws of the layer before">>, Cardinality({j \in 1..m : E(PSub(q1[j], q0[j])) <= E(q1[j]) - 12}) <= 3 + m \div 50)
Initialize ==
  /\ Is("init")
  /\ \E n \in {N(e.id)} :
     \E sch \in {TLCEval([i \in 1..Len(n.acts) |-> Scheme(Given(i), n.acts[i])])} :
     \E ws \in {e.w} :
     \E qs \in {TLCEval([i \in 1..Len(n.acts) |-> Squares(ws[i], TLCEval(Scale(sch[i], n.sizes[i], n.sizes[i + 1])))])} :
     \E flat \in {TLCEval(FoldLeft(LAMBDA a, i : a \o LiftAll(e.b[i]) \o LiftAll(ws[i]), <<>>, Layers(n)))} :
     \E rk \in {<<e.seed, n.sizes, sch>>} :
         /\ Chk("layer sizes unaffected", e.shape = n.sizes)
         /\ Chk("activations unaffected", e.names = n.acts)
         /\ Chk("loss unaffected", e.loss = n.loss)
         /\ \A i \in 1..Len(n.acts) :
              /\ LayerOk(i, sch[i], ws[i], qs[i], n.sizes[i + 1], n.sizes[i])
              /\ (i > 1 /\ sch[i] = sch[i - 1] /\ ~AnyDraws) => NewDraws(i, qs[i], qs[i - 1])
         /\ (n.p # <<>> /\ ~AnyDraws /\ (e.seed < 0 \/ rk \notin DOMAIN digs)) => Chk("weights left as they were", Stale(n.p, flat) <= 3 + FoldLeft(LAMBDA a, i : a + n.sizes[i + 1], 0, Layers(n)) + Len(flat) \div 2000)
         /\ e.seed >= 0 => /\ rk \in DOMAIN digs => Chk("the same seed draws the same parameters", digs[rk] = e.dig)
                           /\ \A k \in DOMAIN digs : (k # rk /\ k[2] = n.sizes /\ k[3] = sch) => Chk(<<"another seed draws others", k>>, digs[k] # e.dig)
         /\ e.seed = -1 => Chk("a later call draws others", e.dig # n.dig /\ \A k \in DOMAIN digs : digs[k] # e.dig)
         /\ digs' = IF e.seed >= 0 THEN Merge(digs, rk, e.dig) ELSE digs
         /\ cnt' = FoldLeft(LAMBDA c, i : LET k == TLCEval(<<Given(i), n.acts[i], n.sizes[i], n.sizes[i + 1]>>) IN
                               Merge(c, k, TLCEval(Counted(IF k \in DOMAIN c THEN c[k] ELSE [t |-> NoDraws, s |-> sch[i], p1 |-> 0, p2 |-> 0], ws[i], qs[i]))),
                            cnt, Layers(n))
         /\ Put(e.id, [n EXCEPT !.p = flat, !.dig = e.dig])
\* the counts gathered so far
Tally == /\ Is("tally") /\ Same /\ UNCHANGED digs /\ cnt' = [k \in {} |-> 0]
         /\ Chk("draws counted", Cardinality(DOMAIN cnt) = e.keys)
         /\ \A k \in DOMAIN cnt :
              LET t == TLCEval(cnt[k].t)
                  s == cnt[k].s
              IN  t[2] >= 60 => /\ Chk(<<k, s, "octiles", t[1]>>, Octiles(t))
                                /\ Chk(<<k, s, "neighbours related", t[5], t[6], cnt[k].p1>>, Signs(t, cnt[k].p1, 5) /\ Signs(t, cnt[k].p2, 6))
                                /\ Chk(<<k, s, "never reaches its limit", t[4], t[2]>>, Reaches(s, t))
                                /\ Chk(<<k, s, "spread", t[3], t[2]>>, Spread(s, t))
                                /\ Chk(<<k, s, "no tails", t[4], t[2]>>, Tails(s, t))
InitTraceInit == TraceInit /\ cnt = [k \in {} |-> 0] /\ digs = [k \in {} |-> ""]
InitTraceNext == (TraceNext /\ UNCHANGED <<cnt, digs>>) \/ Initialize \/ Tally
InitTraceSpec == InitTraceInit /\ [][InitTraceNext]_ivars
=============================================================================
