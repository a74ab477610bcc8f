-------------------------------- MODULE NetFile --------------------------------
(* What a network file is: for each layer a weight and a bias array, and the names of the activations.                      *)
(* A network is [sizes, acts, p]; p is any sequence of values in the documented order. An entry of a file is                *)
(* [name, shape, type, elem, endian, fortran, words, rows]: words are its elements (32-bit ones), rows its strings.          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

BuiltIn == {"softplus", "softsign", "hard_sigmoid", "exponential", "linear", "relu", "softmax", "sigmoid", "tanh"}
\* names: those that resolve besides the built-in ones
Resolve(name, names) == IF name \in BuiltIn \cup names THEN name ELSE "linear"
\* positive sizes, and no layer of more weights than an int counts
ValidSizes(sizes) == /\ Len(sizes) >= 2
                     /\ \A i \in DOMAIN sizes : sizes[i] >= 1
                     /\ \A i \in 1..(Len(sizes) - 1) : sizes[i + 1] <= 2147483647 \div sizes[i]
CountP(sizes) == FoldLeft(LAMBDA acc, l : acc + (sizes[l] + 1) * sizes[l + 1], 0, [i \in 1..(Len(sizes) - 1) |-> i])
Offset(sizes, l) == CountP(SubSeq(sizes, 1, l))
Biases(net, l) == SubSeq(net.p, Offset(net.sizes, l) + 1, Offset(net.sizes, l) + net.sizes[l + 1])
Weights(net, l) == SubSeq(net.p, Offset(net.sizes, l) + net.sizes[l + 1] + 1, Offset(net.sizes, l + 1))
Float(name, shape, words) == [name |-> name, shape |-> shape, type |-> "f", elem |-> 4, endian |-> "<", fortran |-> FALSE, words |-> words, rows |-> <<>>]
\* the file of a network; the width of the names is any that holds them
FileOf(net) == FlattenSeq([l \in 1..(Len(net.sizes) - 1) |-> << Float("weight_" \o ToString(l - 1), <<net.sizes[l], net.sizes[l + 1]>>, Weights(net, l)),
                                                              Float("bias_" \o ToString(l - 1), <<net.sizes[l + 1]>>, Biases(net, l)) >>])
               \o << [name |-> "activations", shape |-> <<Len(net.acts)>>, type |-> "S", elem |-> 0, endian |-> "|", fortran |-> FALSE, words |-> <<>>, rows |-> net.acts] >>
\* an archive's entries make a network if this is one; <<>> otherwise
LoadNet(ents, names) ==
  LET fs == SelectSeq(ents, LAMBDA x : x.type = "f")
      ss == SelectSeq(ents, LAMBDA x : x.type = "S")
      n == Len(fs) \div 2
      w(i) == fs[2 * i - 1]
      b(i) == fs[2 * i]
  IN  IF Len(fs) + Len(ss) # Len(ents) \/ Len(ss) # 1 \/ n < 1 \/ Len(fs) # 2 * n THEN <<>>
      ELSE IF ss[1].shape # <<n>> THEN <<>>
      ELSE IF \E i \in DOMAIN fs : fs[i].elem # 4 \/ fs[i].endian # "<" \/ fs[i].fortran THEN <<>>
      ELSE IF \E i \in 1..n : Len(w(i).shape) # 2 \/ Len(b(i).shape) # 1 THEN <<>>
      ELSE IF \E i \in 1..n : w(i).shape[1] < 1 \/ w(i).shape[2] < 1 \/ b(i).shape[1] # w(i).shape[2] \/ (i > 1 /\ w(i).shape[1] # w(i - 1).shape[2]) THEN <<>>
      ELSE << [sizes |-> <<w(1).shape[1]>> \o [i \in 1..n |-> w(i).shape[2]],
               acts |-> [i \in 1..n |-> Resolve(ss[1].rows[i], names)],
               p |-> FlattenSeq([i \in 1..n |-> b(i).words \o w(i).words])] >>
Consistent(net) == ValidSizes(net.sizes) /\ Len(net.acts) = Len(net.sizes) - 1 /\ Len(net.p) = CountP(net.sizes)
=============================================================================
