-------------------------------- MODULE Progress --------------------------------
(* The progress bar: one line of a terminal, filled as far as the work has come, written over by the next one, and left     *)
(* behind (100%) when the work is done. Nothing is written anywhere but to a terminal, or to one with no room for a bar.    *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Big
Columns(cols) == IF cols = 0 THEN 80 ELSE cols                  \* a terminal that does not know its width
Around(label) == Len(label) + 7                                 \* label, "[", "] ", "100%"
Room(cols, label) == Columns(cols) - Around(label)
Rep(s, k) == FoldLeft(LAMBDA acc, i : acc \o s, "", [i \in 1..k |-> i])
Ceil(a, b) == (a + b - 1) \div b
\* x of n parts of w, rounded down: the division may be inexact (single precision: the product is wrong by 1 / 2^22 of itself)
E == 4194304
PartsOf(w, x, n) == LET d == n \div E + 1                       \* a guess, and those around it that can be right
                        g == IF d = 1 /\ x < 2147483647 \div w THEN (x * w) \div n ELSE ((x \div (512 * d)) * w) \div (n \div (512 * d))
                        xw == BigMul(Big(x), Big(w))
                    IN  {c \in (g - 2)..(g + 2) : /\ 0 <= c /\ c <= w
                                                  /\ ~BigLess(BigMul(xw, Big(E + 1)), BigMul(BigMul(Big(c), Big(n)), Big(E)))
                                                  /\ BigLess(BigMul(xw, Big(E - 1)), BigMul(BigMul(Big(c + 1), Big(n)), Big(E)))}
Parts(w, x, n) == IF x = 0 THEN {0} ELSE IF x = n THEN {w}
                  ELSE IF x < 2147483647 \div w THEN ((x * w - Ceil(x * w, E)) \div n)..((x * w + (x * w) \div E) \div n)
                  ELSE PartsOf(w, x, n)
Pct(p) == (IF p < 10 THEN "  " ELSE IF p < 100 THEN " " ELSE "") \o ToString(p) \o "%"
Bar(label, w, c, p) == label \o "[" \o Rep("#", c) \o Rep("-", w - c) \o "] " \o Pct(p)
Bars(cols, x, n, label) == LET w == Room(cols, label) IN {Bar(label, w, c, p) : c \in Parts(w, x, n), p \in Parts(100, x, n)}
End(x, n) == IF x = n THEN "\n" ELSE "\r"
\* what is written for one report
Written(tty, cols, x, n, label) == IF ~tty \/ Room(cols, label) < 1 THEN {""} ELSE {b \o End(x, n) : b \in Bars(cols, x, n, label)}
\* the reports of an epoch: after every batch
Reports(n, bs) == [i \in 1..Ceil(n, bs) |-> IF i * bs < n THEN i * bs ELSE n]
=============================================================================
