--------------------------------- MODULE ProgMC ---------------------------------
(* The terminal that shows the bars: a row that wraps when it is full. Every epoch of N samples in batches of B under every   *)
(* width and label; between the bars, another program's text may wait at the start of a row.                                  *)
EXTENDS Progress
CONSTANTS Widths, Labels, Sizes, Batches
VARIABLES cols, label, n, bs, k, rows, row
vars == <<cols, label, n, bs, k, rows, row>>
\* a terminal: finished rows, and the row being written
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
T0 == [rows |-> <<>>, row |-> <<>>, at |-> 1]
Put(w, t, c) == IF c = "\n" THEN [rows |-> Append(t.rows, t.row), row |-> <<>>, at |-> 1]
                ELSE IF c = "\r" THEN [t EXCEPT !.at = 1]
                ELSE IF t.at > w THEN [rows |-> Append(t.rows, t.row), row |-> <<c>>, at |-> 2]       \* wraps
                ELSE [t EXCEPT !.row = IF t.at > Len(@) THEN Append(@, c) ELSE [@ EXCEPT ![t.at] = c], !.at = @ + 1]
Init == cols \in Widths /\ label \in Labels /\ n \in Sizes /\ bs \in Batches /\ k = 0 /\ rows = T0 /\ row = ""
Next == /\ k < Len(Reports(n, bs)) /\ k' = k + 1 /\ UNCHANGED <<cols, label, n, bs>>
        /\ \E s \in Written(TRUE, cols, Reports(n, bs)[k + 1], n, label) :
             row' = s /\ rows' = FoldLeft(LAMBDA t, c : Put(Columns(cols), t, c), rows, Chars(s))
Spec == Init /\ [][Next]_vars
Text(r) == FoldLeft(LAMBDA acc, c : acc \o c, "", r)
Done == k = Len(Reports(n, bs))
Fits == Room(cols, label) >= 1
\* the bar takes the row exactly, never a second one; the last report leaves one full row behind
OneRow == IF ~Fits THEN rows = T0
          ELSE /\ ~Done => rows.rows = <<>> /\ rows.at = 1 /\ (k > 0 => Len(rows.row) = Columns(cols))
               /\ Done => rows.rows = <<Chars(label \o "[" \o Rep("#", Room(cols, label)) \o "] 100%")>> /\ rows.row = <<>> /\ rows.at = 1
\* it never goes back, and is full only at the end
Filled(t) == Len(SelectSeq(Chars(SubSeq(t, Len(label) + 1, Len(t))), LAMBDA c : c = "#"))
Honest == Fits /\ k > 0 => LET f == Filled(row) x == Reports(n, bs)[k] w == Room(cols, label) IN (f = w <=> Done) /\ f * n <= x * w /\ (f + 1) * n >= x * w
Forward == [][Fits /\ k > 0 => Filled(row') >= Filled(row)]_vars
=============================================================================
