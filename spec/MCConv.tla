------------------------------- MODULE MCConv -------------------------------
(* The conversion of CliConv works on digit sequences; here it is compared, for
   every text up to a length over the characters that matter, with the value
   computed as a number, for the types narrow enough for TLC's integers.     *)
EXTENDS CliConv, TLC

CONSTANT MaxText
Sigma == {43, 45, 48, 49, 50, 51, 53, 55, 56, 57, 32, 120, 46}
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxText /\ \E c \in Sigma : t' = Append(t, c)
Spec == Init /\ [][Next]_t

Lower(type) == CASE type = "schar" -> -128 [] type = "uchar" -> 0 [] type = "short" -> -32768 [] type = "ushort" -> 0
Upper(type) == CASE type = "schar" -> 127 [] type = "uchar" -> 255 [] type = "short" -> 32767 [] type = "ushort" -> 65535
Number(x) == LET neg == x[1] = 45
                 d   == IF x[1] \in {43, 45} THEN Tail(x) ELSE x
                 v   == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, d)
             IN IF neg THEN 0 - v ELSE v
WellFormed(type, x) == /\ x # <<>>
                       /\ LET d == IF x[1] \in {43, 45} THEN Tail(x) ELSE x
                          IN d # <<>> /\ \A i \in 1 .. Len(d) : Digit(d[i])
                       /\ (x[1] = 45 => type \in Signed)
IntText(n) == IF n < 0 THEN <<45>> \o NatText(0 - n) ELSE NatText(n)
Agrees(type) == LET c == Conv(type, t)
                    ok == WellFormed(type, t) /\ Number(t) >= Lower(type) /\ Number(t) <= Upper(type)
                IN c.ok = ok /\ (ok => c.val = IntText(Number(t)))
Widening == \A p \in {<<"schar", "short">>, <<"short", "int">>, <<"int", "long">>, <<"uchar", "ushort">>, <<"ushort", "uint">>, <<"uint", "ulong">>} :
                Conv(p[1], t).ok => Conv(p[2], t) = Conv(p[1], t)
BoolIs01 == Conv("bool", t).ok => WellFormed("schar", t) /\ Number(t) \in {0, 1}
Inv == Agrees("schar") /\ Agrees("uchar") /\ Agrees("short") /\ Agrees("ushort") /\ Widening /\ BoolIs01
=============================================================================
