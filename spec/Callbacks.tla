------------------------------- MODULE Callbacks -------------------------------
(* Early stopping, checkpoints and loggers: what each instance remembers and does when it is run.                           *)
(* Scores are 32-bit floating point numbers, given by their bits (as signed integers).                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Mag(b) == IF b >= 0 THEN b ELSE (b + 2147483647) + 1
IsNaN(b) == Mag(b) > 2139095040
IsNum(b) == ~IsNaN(b)                       \* infinities are scores
Key(b) == IF b >= 0 THEN Mag(b) ELSE -Mag(b)
Better(greater, a, b) == IF greater THEN Key(a) > Key(b) ELSE Key(a) < Key(b)
Abs(x) == IF x < 0 THEN -x ELSE x
\* the monitored value of an epoch's results (m metrics, with or without their values for a validation set)
Index(cfg, m, valid) == IF cfg.idx >= 0 THEN cfg.idx + 1 ELSE IF valid THEN m + 1 ELSE 1

\* the best score so far: <<>> before there is one; a NaN never is one
Improved(greater, best, v) == IsNum(v) /\ (best = <<>> \/ Better(greater, v, best[1]))
BestAfter(greater, best, v) == IF Improved(greater, best, v) THEN <<v>> ELSE best

NewStopper(cfg) == [kind |-> "es", cfg |-> cfg, best |-> <<>>, since |-> 0, stop |-> FALSE]
StepStopper(s, v) == LET imp == Improved(s.cfg.greater, s.best, v)
                         n == IF imp THEN 0 ELSE s.since + 1
                     IN  [s EXCEPT !.best = BestAfter(s.cfg.greater, s.best, v), !.since = n, !.stop = s.stop \/ (~imp /\ n > s.cfg.patience)]
NewCheckpointer(cfg) == [kind |-> "mc", cfg |-> cfg, best |-> <<>>]
StepCheckpointer(s, v) == [s EXCEPT !.best = BestAfter(s.cfg.greater, s.best, v)]
Saves(s, v) == Improved(s.cfg.greater, s.best, v)
CheckpointFile(s) == IF s.cfg.file = "(none)" THEN "checkpoint.npz" ELSE s.cfg.file

\* a log is a sequence of lines, each with the epoch number it carries (<<>> if it carries none)
LastEpoch(lines) == FoldLeft(LAMBDA acc, x : IF x.epoch # <<>> THEN x.epoch ELSE acc, <<>>, lines)
\* the number of a new logger's first epoch
FirstEpoch(cfg, lines) == IF cfg.start # 0 THEN cfg.start ELSE LET e == LastEpoch(lines) IN IF e = <<>> THEN 0 ELSE e[1] + 1
NewLogger(cfg, lines) == [kind |-> "log", cfg |-> cfg, next |-> FirstEpoch(cfg, lines)]
StepLogger(s) == [s EXCEPT !.next = @ + 1]
\* names on a line for these metrics
LineNames(metrics, valid) == metrics \o (IF valid THEN [i \in DOMAIN metrics |-> "val_" \o metrics[i]] ELSE <<>>)
=============================================================================
