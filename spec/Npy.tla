---------------------------------- MODULE Npy ----------------------------------
(* The NPY version 1.x file format, byte by byte, independently of how this library writes or reads it.                    *)
(* An array is [shape, type, elem, endian, fortran, data]: shape and elem as sequences of decimal digits (byte codes),      *)
(* type and endian as byte codes, data as anything that can be compared (bytes, or a digest of them).                       *)
(* A file is [head, len, data]: its first bytes (at least the header, if it is that long), its length, and what follows     *)
(* the header.                                                                                                              *)
EXTENDS TLC, Big

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([c \in {SubSeq(Ascii, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c])
Lit(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
Chr(s) == CodeOf[s]
NL == 10
SP == 32
Quotes == {39, 34}
Whites == {9, 10, 13, 32}
IsDigit(c) == c \in 48..57
IsLetter(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95

(* ---------------------------------------------------------------- the header dictionary: a Python literal, character by character *)
P0 == [st |-> "start", q |-> 0, key |-> <<>>, tok |-> <<>>, dims |-> <<>>, comma |-> FALSE, got |-> <<>>]
Bad(p) == [p EXCEPT !.st = "bad"]
Put(p, kind, v) == [p EXCEPT !.st = "sep", !.got = Append(@, [key |-> p.key, kind |-> kind, v |-> v])]
Sep(p, c) == IF c \in Whites THEN p ELSE IF c = Chr(",") THEN [p EXCEPT !.st = "key?"] ELSE IF c = Chr("}") THEN [p EXCEPT !.st = "end"] ELSE Bad(p)
Digit(p, c) == [p EXCEPT !.st = "dim", !.tok = Append(@, c)]
EndDim(p, c) == LET d == [p EXCEPT !.dims = Append(@, p.tok), !.tok = <<>>]
                IN  IF c = Chr(",") THEN [d EXCEPT !.st = "dim?", !.comma = TRUE]
                    ELSE IF c = Chr(")") THEN (IF p.comma THEN Put(d, "tuple", d.dims) ELSE Bad(p))      \* (3) is no tuple
                    ELSE Bad(p)
Char(p, c) ==
  CASE p.st = "start" -> IF c = Chr("{") THEN [p EXCEPT !.st = "key?"] ELSE Bad(p)
    [] p.st = "key?"  -> IF c \in Whites THEN p ELSE IF c \in Quotes THEN [p EXCEPT !.st = "key", !.q = c, !.tok = <<>>]
                         ELSE IF c = Chr("}") /\ p.got # <<>> THEN [p EXCEPT !.st = "end"] ELSE Bad(p)
    [] p.st = "key"   -> IF c = p.q THEN [p EXCEPT !.st = "colon", !.key = p.tok, !.tok = <<>>] ELSE [p EXCEPT !.tok = Append(@, c)]
    [] p.st = "colon" -> IF c \in Whites THEN p ELSE IF c = Chr(":") THEN [p EXCEPT !.st = "val?"] ELSE Bad(p)
    [] p.st = "val?"  -> IF c \in Whites THEN p ELSE IF c \in Quotes THEN [p EXCEPT !.st = "str", !.q = c, !.tok = <<>>]
                         ELSE IF c = Chr("(") THEN [p EXCEPT !.st = "dim?", !.dims = <<>>, !.comma = FALSE, !.tok = <<>>]
                         ELSE IF IsLetter(c) THEN [p EXCEPT !.st = "word", !.tok = <<c>>] ELSE Bad(p)
    [] p.st = "str"   -> IF c = p.q THEN Put(p, "str", p.tok) ELSE [p EXCEPT !.tok = Append(@, c)]
    [] p.st = "word"  -> IF IsLetter(c) THEN [p EXCEPT !.tok = Append(@, c)] ELSE Sep(Put(p, "word", p.tok), c)
    [] p.st = "dim?"  -> IF c \in Whites THEN p ELSE IF IsDigit(c) THEN Digit(p, c)
                         ELSE IF c = Chr(")") /\ (p.comma <=> p.dims # <<>>) THEN Put(p, "tuple", p.dims) ELSE Bad(p)
    [] p.st = "dim"   -> IF IsDigit(c) THEN Digit(p, c) ELSE IF c \in Whites THEN [p EXCEPT !.st = "dimend"] ELSE EndDim(p, c)
    [] p.st = "dimend" -> IF c \in Whites THEN p ELSE EndDim(p, c)
    [] p.st = "sep"   -> Sep(p, c)
    [] p.st = "end"   -> IF c \in Whites THEN p ELSE Bad(p)
    [] OTHER          -> p
Dict(h) == FoldLeft(Char, P0, h)
KeysOf(p) == {p.got[i].key : i \in DOMAIN p.got}
ValueOf(p, k) == p.got[CHOOSE i \in DOMAIN p.got : p.got[i].key = Lit(k)]

(* ---------------------------------------------------------------- sizes, without a limit *)
DataSize(shape, elem) == FoldLeft(LAMBDA a, d : BigMul(a, BigOf(d)), BigOf(elem), shape)
NoLeadingZero(ds) == ds # <<>> /\ (\A i \in DOMAIN ds : IsDigit(ds[i])) /\ (Len(ds) > 1 => ds[1] # 48)

(* ---------------------------------------------------------------- the meaning of a file *)
Magic == <<147, 78, 85, 77, 80, 89>>
MaxDims == 8
TooLong == BigOf(Lit("9223372036854775808"))
SupportedTypes == {Chr("b"), Chr("i"), Chr("u"), Chr("f"), Chr("c"), Chr("S"), Chr("V")}
HeaderLen(f) == f.head[9] + 256 * f.head[10]
\* (a file too long for an int says its length in digits)
FileLen(f) == IF "biglen" \in DOMAIN f THEN BigOf(Lit(f.biglen)) ELSE Big(f.len)
DictBytes(f) == SubSeq(f.head, 11, 10 + HeaderLen(f))
\* "refuse": must not be read; "unknown": not a valid file, but not one of the kinds that must be refused; "array": this one
Meaning(f) ==
  IF f.len < 10 \/ SubSeq(f.head, 1, 6) # Magic \/ f.head[7] # 1 THEN [is |-> "refuse"]
  ELSE IF f.len < 10 + HeaderLen(f) THEN [is |-> "refuse"]
  ELSE LET p == Dict(DictBytes(f)) IN
       IF p.st # "end" THEN [is |-> "unknown"]
       ELSE IF ~({Lit("descr"), Lit("fortran_order"), Lit("shape")} \subseteq KeysOf(p)) THEN [is |-> "refuse"]
       ELSE LET d == ValueOf(p, "descr")
                o == ValueOf(p, "fortran_order")
                s == ValueOf(p, "shape")
            IN  IF Len(p.got) # 3 \/ d.kind # "str" \/ o.kind # "word" \/ s.kind # "tuple" THEN [is |-> "unknown"]
                ELSE IF Len(d.v) < 3 \/ d.v[1] \notin {Chr("<"), Chr(">"), Chr("|")} \/ d.v[2] \notin SupportedTypes
                        \/ ~NoLeadingZero(SubSeq(d.v, 3, Len(d.v))) \/ d.v[3] = 48
                        \/ o.v \notin {Lit("True"), Lit("False")} \/ \E i \in DOMAIN s.v : ~NoLeadingZero(s.v[i])
                     THEN [is |-> "unknown"]
                ELSE IF Len(s.v) > MaxDims THEN [is |-> "refuse"]
                ELSE LET elem == SubSeq(d.v, 3, Len(d.v))
                         n == DataSize(s.v, elem)
                     IN  IF n = Zero /\ \E i \in DOMAIN s.v : ~BigLess(BigOf(s.v[i]), TooLong) THEN [is |-> "unknown"]
                         ELSE IF BigLess(FileLen(f), BigAdd(Big(10 + HeaderLen(f)), n)) THEN [is |-> "refuse"]          \* cut short
                         ELSE [is |-> "array", size |-> n,
                               a |-> [shape |-> s.v, type |-> d.v[2], elem |-> elem, endian |-> d.v[1], fortran |-> o.v = Lit("True")]]
\* is the prefix of k bytes of a file with this meaning a complete array?
CompleteAt(f, k) == LET m == Meaning(f) IN m.is = "array" /\ ~BigLess(Big(k), BigAdd(Big(10 + HeaderLen(f)), m.size))

\* a file as this library writes it: version 1.0, aligned, padded with spaces up to a newline, nothing after the data
WellWritten(f) ==
  /\ Meaning(f).is = "array"
  /\ f.head[7] = 1 /\ f.head[8] = 0
  /\ (10 + HeaderLen(f)) % 64 = 0
  /\ FileLen(f) = BigAdd(Big(10 + HeaderLen(f)), Meaning(f).size)
  /\ LET h == DictBytes(f)
         close == CHOOSE i \in DOMAIN h : h[i] = Chr("}") /\ \A j \in DOMAIN h : j > i => h[j] # Chr("}")
     IN  h[Len(h)] = NL /\ \A j \in (close + 1)..(Len(h) - 1) : h[j] = SP
\* the byte order mark when the array does not say (0)
EndianFor(a) == IF a.endian \in {Chr("<"), Chr(">"), Chr("|")} THEN a.endian
                ELSE IF a.elem = Lit("1") \/ a.type = Chr("S") THEN Chr("|") ELSE Chr("<")
Described(a) == [shape |-> a.shape, type |-> a.type, elem |-> a.elem, endian |-> EndianFor(a), fortran |-> a.fortran]
=============================================================================
