------------------------------ MODULE CliText ------------------------------
(* Texts are sequences of byte values (0..255).  Generic helpers.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Blank(c)   == c \in {32, 9, 10}                      \* separates arguments
Space(c)   == c = 32 \/ (c >= 9 /\ c <= 13)          \* std::isspace
Digit(c)   == c >= 48 /\ c <= 57

StartsWith(t, p) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
Drop(t, n) == SubSeq(t, n + 1, Len(t))
Take(t, n) == SubSeq(t, 1, n)
LastOf(t)  == t[Len(t)]
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

RECURSIVE TrimFrom(_, _)
TrimFrom(t, i) == IF i <= Len(t) /\ Space(t[i]) THEN TrimFrom(t, i + 1) ELSE i
TrimLeft(t) == Drop(t, TrimFrom(t, 1) - 1)

(* bytewise lexicographic order *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)
StrictlySorted(l) == \A i \in 1 .. Len(l) - 1 : Less(l[i], l[i + 1])

TextContains(t, p) == \E i \in 0 .. Len(t) - Len(p) : SubSeq(t, i + 1, i + Len(p)) = p

Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
RECURSIVE Repeat(_, _)
Repeat(t, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN t
                ELSE LET h == Repeat(t, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o t
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

(* decimal text of a natural number *)
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))

(* longest common prefix of a non empty sequence of texts *)
RECURSIVE LcpLen(_, _, _)
LcpLen(a, b, i) == IF i < Len(a) /\ i < Len(b) /\ a[i + 1] = b[i + 1] THEN LcpLen(a, b, i + 1) ELSE i
Lcp2(a, b) == Take(a, LcpLen(a, b, 0))
CommonPrefix(l) == FoldLeft(Lcp2, l[1], Tail(l))
=============================================================================
