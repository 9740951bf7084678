------------------------------ MODULE CliConv ------------------------------
(* Conversion of an argument text to a typed parameter (C03).  Integers are
   handled as digit sequences: no value is ever computed in TLC arithmetic. *)
EXTENDS CliText

Strip0(d) == LET RECURSIVE F(_)
                 F(i) == IF i < Len(d) /\ d[i] = 48 THEN F(i + 1) ELSE i
             IN Drop(d, F(1) - 1)                 \* keeps one digit

(* a <= b for digit sequences without leading zeros *)
LeqDigits(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ Less(a, b)))

D(s) == s  \* readability
MaxPos(type) ==
    CASE type = "schar"  -> <<49,50,55>>
      [] type = "uchar"  -> <<50,53,53>>
      [] type = "short"  -> <<51,50,55,54,55>>
      [] type = "ushort" -> <<54,53,53,51,53>>
      [] type = "int"    -> <<50,49,52,55,52,56,51,54,52,55>>
      [] type = "uint"   -> <<52,50,57,52,57,54,55,50,57,53>>
      [] type \in {"long", "llong"}   -> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
      [] type \in {"ulong", "ullong"} -> <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
MaxNeg(type) ==
    CASE type = "schar"  -> <<49,50,56>>
      [] type = "short"  -> <<51,50,55,54,56>>
      [] type = "int"    -> <<50,49,52,55,52,56,51,54,52,56>>
      [] type \in {"long", "llong"}   -> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>

Signed == {"schar", "short", "int", "long", "llong"}
Unsigned == {"uchar", "ushort", "uint", "ulong", "ullong"}
Floats == {"float", "double", "ldouble"}

AllDigits(t) == t # <<>> /\ \A i \in 1 .. Len(t) : Digit(t[i])

Bad == [ok |-> FALSE, val |-> <<>>]
Ok(v) == [ok |-> TRUE, val |-> v]

IntConv(type, t) ==
    IF t = <<>> THEN Bad
    ELSE LET neg  == t[1] = 45
             sgn  == t[1] \in {43, 45}
             body == IF sgn THEN Tail(t) ELSE t
         IN IF ~AllDigits(body) \/ (neg /\ type \in Unsigned) THEN Bad
            ELSE LET m == Strip0(body)
                 IN IF ~LeqDigits(m, IF neg THEN MaxNeg(type) ELSE MaxPos(type)) THEN Bad
                    ELSE Ok(IF neg /\ m # <<48>> THEN <<45>> \o m ELSE m)

BoolConv(t) ==
    IF t = <<116,114,117,101>> THEN Ok(<<49>>)
    ELSE IF t = <<102,97,108,115,101>> THEN Ok(<<48>>)
    ELSE LET r == IntConv("llong", t) IN IF r.ok /\ r.val \in {<<48>>, <<49>>} THEN r ELSE Bad

(* Floating point texts:  [sign] digits [. digits] [e [sign] digits], at least
   one mantissa digit.  The value is not computed; it is compared as normalised
   decimal  <<neg, digits without leading/trailing zeros, exponent>>  with the
   number printed by the handler.  inf, nan and hexadecimal are not generated. *)
RECURSIVE DigEnd(_, _)
DigEnd(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN DigEnd(t, i + 1) ELSE i
SmallNat(d) == FoldLeft(LAMBDA a, c : IF a > 1000000 THEN a ELSE a * 10 + (c - 48), 0, d)

StripTail0(d) == LET RECURSIVE G(_)
                     G(n) == IF n >= 1 /\ d[n] = 48 THEN G(n - 1) ELSE n
                 IN Take(d, G(Len(d)))
ParseFloat(t) ==
    LET i0  == IF t # <<>> /\ t[1] \in {43, 45} THEN 2 ELSE 1
        i1  == DigEnd(t, i0)
        dot == i1 <= Len(t) /\ t[i1] = 46
        i2  == IF dot THEN DigEnd(t, i1 + 1) ELSE i1
        ip  == SubSeq(t, i0, i1 - 1)
        fp  == IF dot THEN SubSeq(t, i1 + 1, i2 - 1) ELSE <<>>
        e   == i2 <= Len(t) /\ t[i2] \in {69, 101}
        es  == e /\ i2 + 1 <= Len(t) /\ t[i2 + 1] \in {43, 45}
        i3  == IF es THEN i2 + 2 ELSE i2 + 1
        i4  == IF e THEN DigEnd(t, i3) ELSE i2
        ok  == ip \o fp # <<>> /\ i4 = Len(t) + 1 /\ (e => i4 > i3)
    IN IF ~ok THEN [ok |-> FALSE, neg |-> FALSE, m |-> <<>>, x |-> 0]
       ELSE LET ex  == IF e THEN (IF es /\ t[i2 + 1] = 45 THEN -1 ELSE 1) * SmallNat(SubSeq(t, i3, i4 - 1)) ELSE 0
                all == ip \o fp
                m1  == StripTail0(all)
                z   == Strip0(m1)
                zz  == IF m1 = <<>> THEN <<>> ELSE IF z = <<48>> THEN <<>> ELSE z
                \* value = 0.d1d2...dn * 10^x  over the stripped digits
                lead == Len(m1) - Len(zz)
                x   == IF zz = <<>> THEN 0 ELSE Len(ip) + ex - lead
            IN [ok |-> TRUE, neg |-> t[1] = 45, m |-> zz, x |-> x]

(* beyond the digits the type always keeps only the magnitude is compared *)
SameNumber(a, b, digits) ==
    LET p == ParseFloat(a)  q == ParseFloat(b)
    IN /\ p.ok /\ q.ok /\ p.neg = q.neg
       /\ IF Len(p.m) <= digits THEN p.m = q.m /\ p.x = q.x ELSE q.x - p.x \in {0, 1}

(* Numbers that the type cannot represent are refused.  Those next to the limits
   (and denormalised ones), that may be rounded, are not generated.             *)
FloatFits(type, t) ==
    LET p == ParseFloat(t)
        r == CASE type = "float" -> <<-36, 38>> [] type = "double" -> <<-306, 308>> [] type = "ldouble" -> <<-4930, 4932>>
    IN p.m = <<>> \/ (p.x >= r[1] /\ p.x <= r[2])

(* user type of the harness: reads "<unsigned digits>u" with operator>> ; the
   generic conversion allows blanks around it *)
UserConv(t) ==
    LET a == TrimLeft(t)
        j == DigEnd(a, 1)
    IN IF j > 1 /\ LeqDigits(Strip0(Take(a, j - 1)), MaxPos("uint")) /\ j <= Len(a) /\ a[j] = 117 /\ TrimLeft(Drop(a, j)) = <<>>
       THEN Ok(Strip0(Take(a, j - 1))) ELSE Bad

Conv(type, t) ==
    CASE type \in Signed \cup Unsigned -> IntConv(type, t)
      [] type = "bool"   -> BoolConv(t)
      [] type = "char"   -> IF Len(t) = 1 THEN Ok(t) ELSE Bad
      [] type = "string" -> Ok(t)
      [] type \in Floats -> IF ParseFloat(t).ok /\ FloatFits(type, t) THEN Ok(t) ELSE Bad
      [] type = "user"   -> UserConv(t)

SameValue(type, expected, got) ==
    CASE type = "float" -> SameNumber(expected, got, 6)
      [] type = "double" -> SameNumber(expected, got, 15)
      [] type = "ldouble" -> SameNumber(expected, got, 18)
      [] OTHER -> expected = got

TypeText(type) ==   \* as shown by help
    CASE type = "schar" -> <<60,115,105,103,110,101,100,32,99,104,97,114,62>>
      [] type = "uchar" -> <<60,117,110,115,105,103,110,101,100,32,99,104,97,114,62>>
      [] type = "short" -> <<60,115,104,111,114,116,62>>
      [] type = "ushort" -> <<60,117,110,115,105,103,110,101,100,32,115,104,111,114,116,62>>
      [] type = "int" -> <<60,105,110,116,62>>
      [] type = "uint" -> <<60,117,110,115,105,103,110,101,100,32,105,110,116,62>>
      [] type = "long" -> <<60,108,111,110,103,62>>
      [] type = "ulong" -> <<60,117,110,115,105,103,110,101,100,32,108,111,110,103,62>>
      [] type = "llong" -> <<60,108,111,110,103,32,108,111,110,103,62>>
      [] type = "ullong" -> <<60,117,110,115,105,103,110,101,100,32,108,111,110,103,32,108,111,110,103,62>>
      [] type = "float" -> <<60,102,108,111,97,116,62>>
      [] type = "double" -> <<60,100,111,117,98,108,101,62>>
      [] type = "ldouble" -> <<60,108,111,110,103,32,100,111,117,98,108,101,62>>
      [] type = "bool" -> <<60,98,111,111,108,62>>
      [] type = "char" -> <<60,99,104,97,114,62>>
      [] type = "string" -> <<60,115,116,114,105,110,103,62>>
      [] type = "list" -> <<60,108,105,115,116,32,111,102,32,115,116,114,105,110,103,115,62>>
      [] type = "user" -> <<>>
=============================================================================
