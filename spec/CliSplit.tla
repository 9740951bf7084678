------------------------------ MODULE CliSplit ------------------------------
(* The tokeniser: how a command line denotes a list of arguments (C01).    *)
EXTENDS CliText

DQ == 34   SQ == 39   BSL == 92   BANG == 33

(* mode: "out"  between arguments,  "word" in an unquoted argument,
         "quote" inside quotes q.    esc: the previous byte was a backslash *)
SplitInit == [mode |-> "out", q |-> 0, esc |-> FALSE, cur |-> <<>>, toks |-> <<>>]

Flush(s) == [s EXCEPT !.toks = IF s.cur = <<>> THEN s.toks ELSE Append(s.toks, s.cur), !.cur = <<>>]

SplitStep(s, c) ==
    IF s.esc THEN
        [s EXCEPT !.esc = FALSE,
                  !.cur = IF c \in {DQ, SQ, BSL} THEN Append(s.cur, c) ELSE s.cur \o <<BSL, c>>]
    ELSE IF c = BSL THEN
        [s EXCEPT !.esc = TRUE, !.mode = IF s.mode = "out" THEN "word" ELSE s.mode]
    ELSE IF s.mode = "quote" THEN
        IF c = s.q THEN [Flush(s) EXCEPT !.mode = "out"] ELSE [s EXCEPT !.cur = Append(s.cur, c)]
    ELSE IF c \in {DQ, SQ} THEN [Flush(s) EXCEPT !.mode = "quote", !.q = c]
    ELSE IF c = BANG THEN [Flush(s) EXCEPT !.mode = "out", !.toks = Append(Flush(s).toks, <<BANG>>)]
    ELSE IF Blank(c) THEN [Flush(s) EXCEPT !.mode = "out"]
    ELSE [s EXCEPT !.mode = "word", !.cur = Append(s.cur, c)]

SplitEnd(s) == Flush(IF s.esc THEN [s EXCEPT !.cur = Append(s.cur, BSL)] ELSE s).toks

Split(line) == SplitEnd(FoldLeft(SplitStep, SplitInit, line))

(* Three ways a list of non-empty arguments can be written as a line *)
QuoteWith(q, a) == <<q>> \o Concat([i \in 1 .. Len(a) |-> IF a[i] \in {q, BSL} THEN <<BSL, a[i]>> ELSE <<a[i]>>]) \o <<q>>
QuoteLine(q, args) == Concat([i \in 1 .. Len(args) |-> QuoteWith(q, args[i]) \o <<32>>])
(* only for arguments without blanks and '!' *)
EscapeLine(args) == Concat([i \in 1 .. Len(args) |->
    Concat([j \in 1 .. Len(args[i]) |-> IF args[i][j] \in {DQ, SQ, BSL} THEN <<BSL, args[i][j]>> ELSE <<args[i][j]>>]) \o <<32>>])
=============================================================================
