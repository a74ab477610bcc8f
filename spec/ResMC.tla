-------------------------------- MODULE ResMC --------------------------------
(* All balanced histories up to a length.  held is kept by the calls themselves (what they take less what they return);   *)
(* when nothing is live, nothing is held.  LEAKY: the control, in which a failing load keeps what it had taken.           *)
EXTENDS Res, Json
CONSTANTS MAXLEN, LEAKY, FAMILY
O(op, f, a) == [op |-> op, s |-> 1, f |-> f, a |-> a]
NetOps == {O("create", "", 0), O("createbad", "", 0), O("load", "good", 0), O("load", "cut", 0), O("init", "", 0), O("use", "", 0), O("loss", "", 0), O("save", "ok", 0), O("save", "nodir", 0), O("nfree", "", 0)}
OptOps == {O("create", "", 0), O("loss", "", 0), O("opt", "", 1), O("epoch", "", 0), O("ofree", "", 0), O("nfree", "", 0), O("cb", "", 0), O("cbrun", "", 1), O("cbfree", "", 0)}
ArrOps == {O("anew", "", 0), O("aload", "two", 0), O("aload", "cut", 0), O("ammap", "trail", 0), O("ammap", "text", 0), O("asave", "ok", 0), O("asave", "nodir", 0), O("afree", "", 0),
           O("lload", "few", 0), O("lload", "cut", 0), O("ladd", "", 1), O("lsave", "ok", 0), O("lsave", "isdir", 0), O("lfree", "", 0)}
Ops == CASE FAMILY = "net" -> NetOps [] FAMILY = "opt" -> OptOps [] OTHER -> ArrOps
VARIABLES st, hist, held
vars == <<st, hist, held>>
Init == st = [x \in {} |-> Empty] /\ hist = <<>> /\ held = <<0, 0, 0>>
Of(s, k) == LET v == Slot(s, k, 1) IN Holds(k, v)
Do(o) ==
  LET r == Step(st, o)
      \* what the call takes for itself, and what it gives back: all of it, or all but the object it hands out
      kept == IF LEAKY /\ ~r[2] /\ o.op = "load" THEN <<1, 0, 0>> ELSE <<0, 0, 0>>
      moved == IF o.op = "ladd" THEN Holds("arr", Slot(st, "arr", o.a)) ELSE <<0, 0, 0>>
      before == Holds(r[3], Slot(st, r[3], o.s))
      after == Holds(r[3], r[4])
  IN  /\ Len(hist) < MAXLEN /\ r[1]
      /\ hist' = Append(hist, o) /\ st' = After(st, o)
      /\ held' = SubV(AddV(AddV(held, kept), after), AddV(before, moved))
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
Live(s) == LET sum(S) == <<Cardinality({k \in S : Slot(s, k, 1) # Empty}), 0, Cardinality({k \in S : Slot(s, k, 1) = "mapped"})>> IN sum(Kinds)
NothingOwed == held = Live(st)
Closed == Balanced(st) => held = <<0, 0, 0>>
\* a complete history: balanced, and it does not end in a use of nothing
Emit == (Balanced(st) /\ Len(hist) >= 1 /\ hist[Len(hist)].op \in {"nfree", "ofree", "cbfree", "afree", "lfree", "load", "aload", "ammap", "lload", "createbad"}) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
