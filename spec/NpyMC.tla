--------------------------------- MODULE NpyMC ---------------------------------
(* A writer puts the file of one array out byte by byte and may stop (crash, full disk) anywhere; a reader may look at any  *)
(* time. Checked for every small array: what is written is a valid file describing exactly that array, and a reader sees    *)
(* nothing before the last byte is there.                                                                                    *)
EXTENDS Npy
CONSTANTS Dims, MaxNd, Types, Elems
VARIABLES a, file, n
vars == <<a, file, n>>
Shapes == UNION {[1..k -> Dims] : k \in 0..MaxNd}
Digits(s) == Lit(s)
Arrays == {[shape |-> [i \in DOMAIN s |-> Lit(s[i])], type |-> Chr(t), elem |-> Lit(e), endian |-> 0, fortran |-> o] : s \in Shapes, t \in Types, e \in Elems, o \in BOOLEAN}
Text(x) == Lit("{'descr': '") \o <<EndianFor(x), x.type>> \o x.elem \o Lit("', 'fortran_order': ") \o (IF x.fortran THEN Lit("True") ELSE Lit("False"))
           \o Lit(", 'shape': (") \o FoldLeft(LAMBDA acc, d : acc \o d \o Lit(","), <<>>, x.shape) \o Lit("), }")
Header(x) == LET t == Text(x)
                 total == 64 * ((10 + Len(t) + 1 + 63) \div 64)
                 h == t \o [i \in 1..(total - 10 - Len(t) - 1) |-> SP] \o <<NL>>
             IN  Magic \o <<1, 0, Len(h) % 256, Len(h) \div 256>> \o h
Content(x) == Header(x) \o [i \in 1..IntOf(DataSize(x.shape, x.elem)) |-> (i * 37) % 256]
Init == \E x \in Arrays : a = x /\ file = TLCEval(Content(x)) /\ n = 0
Next == n < Len(file) /\ UNCHANGED <<a, file>>
        /\ \E k \in {1} \cup (IF n = 0 THEN {5, 9, 10, 11, 64, 100} ELSE {}) : n + k <= Len(file) /\ n' = n + k
Spec == Init /\ [][Next]_vars
OnDisk == [head |-> SubSeq(file, 1, n), len |-> n]
NothingEarly == n < Len(file) => Meaning(OnDisk).is = "refuse"
Finished == n = Len(file) => /\ WellWritten(OnDisk)
                             /\ Meaning(OnDisk).a = Described(a)
                             /\ Meaning(OnDisk).size = DataSize(a.shape, a.elem)
                             /\ CompleteAt(OnDisk, n) /\ ~CompleteAt(OnDisk, n - 1)
=============================================================================
