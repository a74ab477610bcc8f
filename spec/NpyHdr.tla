--------------------------------- MODULE NpyHdr ---------------------------------
(* Headers of other programs: every layout of the same dictionary means the same array. Every layout is printed, to be      *)
(* replayed into the readers of the library.                                                                                 *)
EXTENDS Npy, Json, FiniteSets
VARIABLE v
Orders == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Arrays == { [shape |-> <<>>, type |-> "f", elem |-> "8", endian |-> "<", fortran |-> "False"],
            [shape |-> <<"3">>, type |-> "i", elem |-> "2", endian |-> ">", fortran |-> "True"],
            [shape |-> <<"2", "0", "10">>, type |-> "S", elem |-> "12", endian |-> "|", fortran |-> "False"],
            [shape |-> <<"2", "1", "3", "1", "1", "2", "1", "1">>, type |-> "u", elem |-> "1", endian |-> "|", fortran |-> "True"] }
Variants == [arr : Arrays, order : Orders, quote : {"'", "\""}, before : {"", " "}, after : {"", " ", "   "}, comma : {"", " ", ","}, tup : {0, 1, 2}, minor : {0, 1}, pad : {0, 7}]
Tuple(s, style) == IF s = <<>> THEN "()" ELSE
   LET sep == IF style = 0 THEN ", " ELSE IF style = 1 THEN "," ELSE " , "
       body == FoldLeft(LAMBDA acc, i : acc \o s[i] \o (IF i < Len(s) THEN sep ELSE ""), "", [i \in 1..Len(s) |-> i])
   IN  "(" \o (IF style = 2 THEN " " ELSE "") \o body \o (IF Len(s) = 1 \/ style = 1 THEN "," ELSE "") \o (IF style = 2 THEN " " ELSE "") \o ")"
Item(x, k) == LET q == x.quote IN
   q \o (CASE k = 1 -> "descr" [] k = 2 -> "fortran_order" [] k = 3 -> "shape") \o q \o x.before \o ":" \o x.after
   \o (CASE k = 1 -> q \o x.arr.endian \o x.arr.type \o x.arr.elem \o q [] k = 2 -> x.arr.fortran [] k = 3 -> Tuple(x.arr.shape, x.tup))
Text(x) == "{" \o Item(x, x.order[1]) \o ", " \o Item(x, x.order[2]) \o (IF x.before = "" THEN "," ELSE " ,  ") \o Item(x, x.order[3]) \o x.comma \o "}"
Bytes(x) == LET t == Lit(Text(x)) IN t \o [i \in 1..x.pad |-> SP] \o <<NL>>
File(x) == LET h == Bytes(x) IN Magic \o <<1, x.minor, Len(h) % 256, Len(h) \div 256>> \o h
Init == v \in Variants
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
SameMeaning == LET f == File(v)
                   n == DataSize([i \in DOMAIN v.arr.shape |-> Lit(v.arr.shape[i])], Lit(v.arr.elem))
                   m == Meaning([head |-> f, len |-> Len(f) + IntOf(n)])
               IN  /\ m.is = "array" /\ m.size = n
                   /\ m.a = [shape |-> [i \in DOMAIN v.arr.shape |-> Lit(v.arr.shape[i])], type |-> Chr(v.arr.type), elem |-> Lit(v.arr.elem),
                             endian |-> Chr(v.arr.endian), fortran |-> v.arr.fortran = "True"]
PrintIt == PrintT(<<"BEH", ToJson([text |-> Text(v), pad |-> v.pad, minor |-> v.minor])>>)
=============================================================================
