------------------------------ MODULE MCSplit ------------------------------
(* The tokeniser over every line up to a length, byte by byte: its state
   machine never loses or invents a byte, every list of arguments can be
   written as a line in each of the three ways, and (CliSplit is a fold over
   the bytes) an argument never depends on what precedes a complete one.    *)
EXTENDS CliSplit, TLC, Json, IOUtils

MaxLen == IF "LEN" \in DOMAIN IOEnv THEN IOEnv.LEN ELSE "4"
MaxText == CASE MaxLen = "3" -> 3 [] MaxLen = "4" -> 4 [] MaxLen = "5" -> 5 [] MaxLen = "6" -> 6
Sigma == {97, 32, DQ, SQ, BSL, BANG, 10}
ArgSigma == {97, 32, DQ, SQ, BSL, BANG}

VARIABLES line, st
Init == line = <<>> /\ st = SplitInit
Next == Len(line) < MaxText /\ \E c \in Sigma : line' = Append(line, c) /\ st' = SplitStep(st, c)
Spec == Init /\ [][Next]_<<line, st>>

(* the bytes of the arguments are bytes of the line, in order *)
RECURSIVE SubSequence(_, _)
SubSequence(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                     ELSE IF Head(a) = Head(b) THEN SubSequence(Tail(a), Tail(b)) ELSE SubSequence(a, Tail(b))
Faithful == LET t == SplitEnd(st) IN SubSequence(Concat(t), line) /\ \A i \in 1 .. Len(t) : t[i] # <<>>
Fold == SplitEnd(st) = Split(line)
(* a complete line and a blank: what follows is split on its own *)
Compositional == st.mode = "out" /\ ~st.esc /\ st.cur = <<>> =>
                    \A d \in {<<97>>, <<DQ, 32, DQ>>, <<BANG, 97>>} : Split(line \o d) = Split(line) \o Split(d)
(* without quotes, backslashes and '!' it is plain splitting at blanks *)
Plain == (\A i \in 1 .. Len(line) : line[i] \in {97, 32, 10}) =>
            LET n == Cardinality({i \in 1 .. Len(line) : line[i] = 97 /\ (i = 1 \/ line[i - 1] # 97)})
            IN Len(SplitEnd(st)) = n /\ \A i \in 1 .. n : \A j \in 1 .. Len(SplitEnd(st)[i]) : SplitEnd(st)[i][j] = 97

(* every argument list can be written *)
Args == UNION {[1 .. n -> ArgSigma] : n \in 1 .. 3}
NoBlank(a) == \A i \in 1 .. Len(a) : a[i] \notin {32, BANG, 10}
RoundTrip == /\ \A q \in {DQ, SQ} : \A a \in Args : Split(QuoteLine(q, <<a>>)) = <<a>>
             /\ \A a \in {x \in Args : NoBlank(x)} : Split(EscapeLine(<<a>>)) = <<a>>
             /\ \A q \in {DQ, SQ} : \A a, b \in {x \in Args : Len(x) <= 2} : Split(QuoteLine(q, <<a, b>>)) = <<a, b>>
ASSUME RoundTrip

Inv == Faithful /\ Fold /\ Compositional /\ Plain
=============================================================================
