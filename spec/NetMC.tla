--------------------------------- MODULE NetMC ---------------------------------
(* Network files and everything up to two changes away from one: a file that is not a network's is refused, whatever is     *)
(* accepted is a consistent network, and a saved network loads as itself. Every archive reached is printed and replayed.     *)
EXTENDS NetFile, Json
CONSTANTS Start, Changes
VARIABLES arr, k
vars == <<arr, k>>
Starts == << <<2, 1>>, <<1, 2, 2>>, <<2, 3, 1, 2>> >>
Words(n) == [i \in 1..n |-> "w" \o ToString(i)]
Prod(s) == FoldLeft(LAMBDA a, d : a * d, 1, s)
F(shape) == Float("x", shape, Words(Prod(shape)))
A(shape, rows) == [name |-> "x", shape |-> shape, type |-> "S", elem |-> 12, endian |-> "|", fortran |-> FALSE, words |-> <<>>, rows |-> rows]
Odd == { F(<<2, 1>>), F(<<1, 2>>), F(<<2, 2>>), F(<<3>>), F(<<2>>), F(<<1>>), F(<<>>), F(<<2, 1, 1>>), F(<<0, 2>>), F(<<2, 0>>), F(<<0>>),
         [F(<<2, 2>>) EXCEPT !.fortran = TRUE], [F(<<2>>) EXCEPT !.endian = ">"], [F(<<2, 1>>) EXCEPT !.elem = 8], [F(<<2>>) EXCEPT !.elem = 2],
         [F(<<2>>) EXCEPT !.type = "i"], [F(<<2>>) EXCEPT !.type = "u", !.elem = 1],
         A(<<1>>, <<"tanh">>), A(<<2>>, <<"relu", "">>), A(<<3>>, <<"linear", "nosuch", "softmax">>), A(<<0>>, <<>>), A(<<1, 1>>, <<"tanh">>), A(<<>>, <<"tanh">>),
         [A(<<2>>, <<"a", "b">>) EXCEPT !.type = "V"] }
Net(sizes) == [sizes |-> sizes, acts |-> [i \in 1..(Len(sizes) - 1) |-> IF i % 2 = 1 THEN "tanh" ELSE "softmax"], p |-> Words(CountP(sizes))]
Init == k = 0 /\ \E i \in Start : arr = FileOf(Net(Starts[i]))
Drop(i) == arr' = SubSeq(arr, 1, i - 1) \o SubSeq(arr, i + 1, Len(arr))
Put(i, x) == arr' = SubSeq(arr, 1, i - 1) \o <<x>> \o SubSeq(arr, i, Len(arr))
Replace(i, x) == arr' = [arr EXCEPT ![i] = x]
Swap(i, j) == arr' = [arr EXCEPT ![i] = arr[j], ![j] = arr[i]]
Next == /\ k < Changes /\ k' = k + 1
        /\ \/ \E i \in DOMAIN arr : Drop(i)
           \/ \E i \in 1..(Len(arr) + 1) : \E x \in Odd : Put(i, x)
           \/ \E i \in DOMAIN arr : \E x \in Odd : Replace(i, x)
           \/ \E i, j \in DOMAIN arr : i < j /\ Swap(i, j)
           \/ \E i \in DOMAIN arr : Put(1, arr[i])
Spec == Init /\ [][Next]_vars
OnlyNetworks == LET r == LoadNet(arr, {}) IN r # <<>> => Consistent(r[1])
ItselfFirst == k = 0 => \E i \in Start : LoadNet(arr, {}) = <<Net(Starts[i])>>
\* the activations may be anywhere
Anywhere == k = 0 => \A i \in 1..Len(arr) : LET rest == SubSeq(arr, 1, Len(arr) - 1)
                                             q == SubSeq(rest, 1, i - 1) \o <<arr[Len(arr)]>> \o SubSeq(rest, i, Len(rest))
                                         IN LoadNet(q, {}) = LoadNet(arr, {})
PrintIt == PrintT(<<"BEH", ToJson([k |-> k, arr |-> [i \in DOMAIN arr |-> [shape |-> arr[i].shape, type |-> arr[i].type, elem |-> arr[i].elem, endian |-> arr[i].endian,
                                     fortran |-> arr[i].fortran, rows |-> arr[i].rows]]])>>)
=============================================================================
