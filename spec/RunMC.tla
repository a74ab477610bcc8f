---------------------------------- MODULE RunMC ----------------------------------
(* The same session in two worlds. In the second there may be any work before it (other objects, draws of random numbers),    *)
(* and work on other objects during it that draws nothing. Both must see the same. An optimizer's first epoch takes a new     *)
(* seed from the clock (which is held still). LEAKY: the control, with something that outlives the objects.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Before, LEAKY
VARIABLES w, obs, hist, phase
vars == <<w, obs, hist, phase>>
Objs == {"mine", "other"}
World0 == [rng |-> 100, left |-> 0, obj |-> [o \in Objs |-> 0], ran |-> {}]
Clock == 41
\* what an operation does to a world and what is seen: random numbers are drawn in order; an object remembers what was done to it
Seed(x, k) == [x EXCEPT !.rng = k]
Do(y, op, o) ==
  LET first == op \in {"train", "shuffled"} /\ <<o, op>> \notin y.ran
      x == IF first THEN [y EXCEPT !.rng = Clock, !.ran = @ \cup {<<o, op>>}] ELSE IF op \in {"create", "free"} THEN [y EXCEPT !.ran = {t \in @ : t[1] # o}] ELSE y
      d == CASE op = "init" -> 3 [] op = "shuffled" -> 2 [] OTHER -> 0
      v == (CASE op = "create" -> 1 [] op = "init" -> x.rng % 97 [] op = "predict" -> x.obj[o] [] op = "train" -> (x.obj[o] * 7 + 3) % 97
              [] op = "shuffled" -> (x.obj[o] * 5 + x.rng) % 97 [] op = "free" -> 0) + (IF LEAKY /\ op = "train" THEN x.left ELSE 0)
  IN  [x EXCEPT !.rng = @ + d, !.left = IF op = "train" THEN 1 ELSE @, !.obj[o] = v]
Mine == {"create", "init", "train", "shuffled", "predict"}
Quiet == {"create", "train", "predict", "free"}
Init == w = <<World0, World0>> /\ obs = <<>> /\ hist = <<>> /\ phase = "before"
BeforeIt == /\ phase = "before" /\ Len(hist) < Before /\ UNCHANGED <<obs, phase>>
            /\ \E op \in Mine : w' = [w EXCEPT ![2] = Do(@, op, "other")] /\ hist' = Append(hist, <<"before", op>>)
Start == /\ phase = "before" /\ phase' = "mine" /\ obs' = <<>>
         /\ w' = [k \in 1..2 |-> [Seed(w[k], 7) EXCEPT !.obj["mine"] = 0, !.ran = {t \in @ : t[1] # "mine"}]] /\ hist' = Append(hist, <<"seed", "">>)
Ours == Len(SelectSeq(hist, LAMBDA h : h[1] = "mine"))
Step == /\ phase = "mine" /\ Ours < Depth /\ UNCHANGED phase
        /\ \E op \in (IF Ours = 0 THEN {"create"} ELSE Mine \ {"create"}) :
             /\ w' = [k \in 1..2 |-> Do(w[k], op, "mine")] /\ hist' = Append(hist, <<"mine", op>>)
             /\ obs' = Append(obs, <<w'[1].obj["mine"], w'[2].obj["mine"]>>)
Noise == /\ phase = "mine" /\ Ours < Depth /\ hist[Len(hist)][1] # "noise" /\ UNCHANGED <<phase, obs>>
         /\ \E op \in Quiet : (op = "train" => <<"other", op>> \in w[2].ran) /\ w' = [w EXCEPT ![2] = Do(@, op, "other")] /\ hist' = Append(hist, <<"noise", op>>)
Next == BeforeIt \/ Start \/ Step \/ Noise
Spec == Init /\ [][Next]_vars
Same == \A k \in DOMAIN obs : obs[k][1] = obs[k][2]
PrintIt == Ours = Depth => PrintT(<<"BEH", ToJson([hist |-> hist])>>)
=============================================================================
