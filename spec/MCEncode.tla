------------------------------ MODULE MCEncode ------------------------------
(* C25 on the specification: the encoding of what a session writes keeps every
   byte, puts a carriage return before each line feed and nothing else, and
   does not depend on how the text is cut into writes.                        *)
EXTENDS CliTerminal, IOUtils, TLC

Sigma == {10, 13, 65, 255, 0}
N == atoi(IOEnv.LEN)
VARIABLE t
Init == t = <<>>
Next == Len(t) < N /\ \E c \in Sigma : t' = Append(t, c)
Spec == Init /\ [][Next]_t

(* what the client reads back: each CR LF is a line feed *)
RECURSIVE Decode(_)
Decode(e) == IF e = <<>> THEN <<>>
             ELSE IF Len(e) > 1 /\ e[1] = 13 /\ e[2] = 10 THEN <<10>> \o Decode(Drop(e, 2))
             ELSE <<e[1]>> \o Decode(Tail(e))
LFs(x) == Len(SelectSeq(x, LAMBDA c : c = 10))
Complete  == Decode(Encode(t)) = t
Preceded  == \A i \in 1 .. Len(Encode(t)) : Encode(t)[i] = 10 => i > 1 /\ Encode(t)[i - 1] = 13
NoneAdded == Len(Encode(t)) = Len(t) + LFs(t)
AnyCut    == \A i \in 0 .. Len(t) : Encode(t) = Encode(Take(t, i)) \o Encode(Drop(t, i))
Inv == Complete /\ Preceded /\ NoneAdded /\ AnyCut
=============================================================================
