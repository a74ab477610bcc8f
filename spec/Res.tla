--------------------------------- MODULE Res ---------------------------------
(* Lifecycles: which object holds what, and what each call gives and takes.  held is what the process owes the system:   *)
(* memory blocks, descriptors and mappings.  A call works with resources of its own and returns them before it returns,  *)
(* except those that belong to the object it hands out; a call that fails hands out nothing.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NetFiles == [good |-> TRUE, one |-> TRUE, unknown |-> TRUE, cut |-> FALSE, text |-> FALSE, missing |-> FALSE, dir |-> FALSE, shapes |-> FALSE, dtype |-> FALSE,
             noact |-> FALSE, actshort |-> FALSE, odd |-> FALSE, empty |-> FALSE, fortran |-> FALSE, chain |-> FALSE]
ArrFiles == [two |-> TRUE, zero |-> TRUE, scalar |-> TRUE, fort |-> TRUE, trail |-> TRUE, page |-> TRUE, big |-> TRUE, eight |-> TRUE, cut |-> FALSE, head |-> FALSE, text |-> FALSE, missing |-> FALSE, dir |-> FALSE, magic |-> FALSE, dict |-> FALSE, none |-> FALSE]
LstFiles == [few |-> TRUE, deflated |-> TRUE, partly |-> TRUE, nothing |-> FALSE, cut |-> FALSE, text |-> FALSE, missing |-> FALSE]
Targets == [ok |-> TRUE, nodir |-> FALSE, isdir |-> FALSE]
\* "-": nothing there
Kinds == {"net", "opt", "cb", "arr", "lst"}
Empty == "-"
\* memory blocks, descriptors, mappings an object holds; blocks of a list: one per array in it
Holds(k, v) == CASE v = Empty -> <<0, 0, 0>>
                 [] k = "arr" /\ v = "mapped" -> <<1, 0, 1>>
                 [] OTHER -> <<1, 0, 0>>
AddV(a, b) == [i \in 1..3 |-> a[i] + b[i]]
SubV(a, b) == [i \in 1..3 |-> a[i] - b[i]]
\* one call: st: slot -> [k, v], slots being <<kind, number>>; gives <<enabled, result, slot written, value>>
Slot(st, k, s) == IF <<k, s>> \in DOMAIN st THEN st[<<k, s>>] ELSE Empty
\* an optimizer is of a network, which stays while the optimizer does
InUse(st, s) == \E t \in 1..4 : Slot(st, "opt", t) = "of" \o ToString(s)
Step(st, o) ==
  LET at(k) == Slot(st, k, o.s)
      open(k, good, v) == <<at(k) = Empty, good, k, IF good THEN v ELSE Empty>>
      use(k, res) == <<at(k) # Empty, res, k, at(k)>>
      drop(k) == <<TRUE, TRUE, k, Empty>>
  IN
  CASE o.op = "create" -> open("net", TRUE, "net")
    [] o.op = "createbad" -> <<TRUE, FALSE, "net", at("net")>>
    [] o.op = "load" -> open("net", NetFiles[o.f], "net")
    [] o.op \in {"init", "use", "eval"} -> use("net", TRUE)
    [] o.op = "loss" -> IF o.a = 3 THEN <<at("net") # Empty /\ ~InUse(st, o.s), TRUE, "net", "net">> ELSE <<at("net") # Empty, TRUE, "net", "lossy">>
    [] o.op = "save" -> use("net", TRUE)
    [] o.op = "nfree" -> <<~InUse(st, o.s), TRUE, "net", Empty>>
    [] o.op = "opt" -> <<at("opt") = Empty /\ Slot(st, "net", o.a) = "lossy", TRUE, "opt", "of" \o ToString(o.a)>>
    [] o.op = "epoch" -> use("opt", TRUE)
    [] o.op = "ofree" -> <<at("opt") # Empty, TRUE, "opt", Empty>>
    [] o.op = "cb" -> open("cb", TRUE, "cb")
    [] o.op = "cbrun" -> <<at("cb") # Empty /\ Slot(st, "opt", o.a) # Empty, TRUE, "cb", at("cb")>>
    [] o.op = "cbfree" -> <<at("cb") # Empty, TRUE, "cb", Empty>>
    [] o.op = "anew" -> open("arr", TRUE, "heap")
    [] o.op = "aload" -> open("arr", ArrFiles[o.f], "heap")
    [] o.op = "ammap" -> open("arr", ArrFiles[o.f], "mapped")
    [] o.op \in {"asave", "dump"} -> use("arr", TRUE)
    [] o.op = "afree" -> drop("arr")
    [] o.op = "lload" -> open("lst", LstFiles[o.f], "lst")
    [] o.op = "ladd" -> <<Slot(st, "arr", o.a) # Empty, TRUE, "lst", "lst">>         \* and the array belongs to the list
    [] o.op = "lsave" -> <<at("lst") # Empty, Targets[o.f], "lst", at("lst")>>
    [] o.op = "lfree" -> drop("lst")
    [] o.op = "name" -> <<TRUE, o.a < 12, "net", at("net")>>
Put(st, k, s, v) == [x \in DOMAIN st \cup {<<k, s>>} |-> IF x = <<k, s>> THEN v ELSE st[x]]
After(st, o) == LET r == Step(st, o)
                    st1 == Put(st, r[3], o.s, r[4])
                IN  IF o.op = "ladd" THEN Put(st1, "arr", o.a, Empty) ELSE st1
Balanced(st) == \A x \in DOMAIN st : st[x] = Empty
=============================================================================
