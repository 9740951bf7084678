---------------------------- MODULE CliTerminal ----------------------------
(* What is between a remote client and a session: telnet commands, key
   decoding, the line editor, and a model of the client's screen.          *)
EXTENDS CliText

(* ---------- telnet, from the client (C17) -------------------------------- *)
IAC == 255  SE == 240  SB == 250  WILL == 251  WONT == 252  DO == 253  DONT == 254

TelInit == [st |-> "data", esc |-> FALSE]
(* one byte: new state, the data byte it yields (or <<>>), the option to answer about (or <<>>) *)
TelByte(t, c) ==
    LET r(st, esc, d, o) == [t |-> [st |-> st, esc |-> esc], data |-> d, ans |-> o]
    IN IF ~t.esc /\ c = IAC THEN r(t.st, TRUE, <<>>, <<>>)
       ELSE IF t.esc /\ c # IAC THEN
            CASE c = SB -> r("sub", FALSE, <<>>, <<>>)
              [] c \in {WILL, DO} -> r("ask", FALSE, <<>>, <<>>)
              [] c \in {WONT, DONT} -> r("tell", FALSE, <<>>, <<>>)
              [] OTHER -> r("data", FALSE, <<>>, <<>>)          \* SE and the other commands
       ELSE CASE t.st = "data" -> r("data", FALSE, <<c>>, <<>>)
              [] t.st = "sub"  -> r("sub", FALSE, <<>>, <<>>)
              [] t.st = "ask"  -> r("data", FALSE, <<>>, <<c>>)
              [] t.st = "tell" -> r("data", FALSE, <<>>, <<>>)

(* bytes a client that respects the protocol may send next, and what completes a pending command *)
TelLegal(t, c) == CASE t.esc -> IF t.st = "sub" THEN c \in {SE, IAC} ELSE c \in 241 .. 255
                    [] t.st \in {"ask", "tell"} -> c # IAC
                    [] OTHER -> TRUE
TelCloser(t) == CASE t.st = "sub" -> IF t.esc THEN <<SE>> ELSE <<IAC, SE>>
                  [] t.esc -> <<241>>
                  [] t.st \in {"ask", "tell"} -> <<1>>
                  [] OTHER -> <<>>

(* ---------- keys (C18) ----------------------------------------------------- *)
Key(k) == <<[k |-> k, c |-> 0]>>
(* one data byte: new state of the decoder, and the key, if any *)
KeyByte(d, c) ==
    LET r(s, k) == [d |-> s, key |-> k]
    IN CASE d = "none" ->
              CASE c \in {4, 255} -> r("none", Key("eof"))
                [] c \in {8, 127} -> r("none", Key("backspace"))
                [] c = 12 -> r("none", Key("clear"))
                [] c = 9  -> r("none", Key("tab"))
                [] c = 13 -> r("cr", <<>>)
                [] c = 27 -> r("esc", <<>>)
                [] OTHER  -> r("none", <<[k |-> "char", c |-> c]>>)
         [] d = "cr"  -> r("none", IF c \in {0, 10} THEN Key("enter") ELSE <<>>)
         [] d = "esc" -> r(IF c = 91 THEN "csi" ELSE "none", <<>>)
         [] d = "csi" ->
              CASE c = 65 -> r("none", Key("up"))
                [] c = 66 -> r("none", Key("down"))
                [] c = 67 -> r("none", Key("right"))
                [] c = 68 -> r("none", Key("left"))
                [] c = 70 -> r("none", Key("end"))
                [] c = 72 -> r("none", Key("home"))
                [] c = 51 -> r("csi3", <<>>)
                [] OTHER  -> r("csix", <<>>)
         [] d = "csi3" -> r("none", IF c = 126 THEN Key("delete") ELSE <<>>)
         [] d = "csix" -> r("none", <<>>)

(* ---------- the line editor (C15) ------------------------------------------ *)
EdInit == [line |-> <<>>, pos |-> 0]
EdSet(line) == [line |-> line, pos |-> Len(line)]
Edit(e, key) ==
    LET n == Len(e.line)
    IN CASE key.k = "char"  -> [line |-> Take(e.line, e.pos) \o <<key.c>> \o Drop(e.line, e.pos), pos |-> e.pos + 1]
         [] key.k = "left"  -> [e EXCEPT !.pos = MaxOf(0, @ - 1)]
         [] key.k = "right" -> [e EXCEPT !.pos = MinOf(n, @ + 1)]
         [] key.k = "home"  -> [e EXCEPT !.pos = 0]
         [] key.k = "end"   -> [e EXCEPT !.pos = n]
         [] key.k = "backspace" -> IF e.pos = 0 THEN e
                                   ELSE [line |-> Take(e.line, e.pos - 1) \o Drop(e.line, e.pos), pos |-> e.pos - 1]
         [] key.k = "delete" -> IF e.pos = n THEN e
                                ELSE [e EXCEPT !.line = Take(@, e.pos) \o Drop(@, e.pos + 1)]
         [] OTHER -> e
EdInv(e) == e.pos \in 0 .. Len(e.line)

(* ---------- completion by TAB (C08) ---------------------------------------- *)
(* set of texts as a sorted sequence: only the common prefix of all matters *)
RECURSIVE PrefixOfAll(_, _)
PrefixOfAll(s, acc) == IF s = {} THEN acc
                       ELSE LET x == CHOOSE y \in s : TRUE IN PrefixOfAll(s \ {x}, Lcp2(acc, x))
(* the line after TAB, or whether the completions are listed *)
TabLine(line, comps) ==
    IF comps = {} THEN [list |-> FALSE, line |-> line, same |-> TRUE]
    ELSE IF Cardinality(comps) = 1 THEN [list |-> FALSE, line |-> (CHOOSE x \in comps : TRUE) \o <<32>>, same |-> FALSE]
    ELSE LET p == PrefixOfAll(comps, CHOOSE x \in comps : TRUE)
         IN IF Len(p) > Len(line) THEN [list |-> FALSE, line |-> p, same |-> FALSE]
            ELSE [list |-> TRUE, line |-> line, same |-> FALSE]

(* ---------- the client's screen (C16) --------------------------------------- *)
(* row, col: the row of the cursor and its column;  done: number of rows above
   since the last clear;  esc: inside an escape sequence                        *)
ScrInit == [row |-> <<>>, col |-> 0, done |-> 0, esc |-> "", par |-> <<>>]
Pad(row, n) == IF Len(row) >= n THEN row ELSE row \o [i \in 1 .. n - Len(row) |-> 32]
Put(row, col, c) == LET r == Pad(row, col) IN Take(r, col) \o <<c>> \o Drop(r, col + 1)
ScrByte(s, c) ==
    IF s.esc = "e" THEN IF c = 91 THEN [s EXCEPT !.esc = "[", !.par = <<>>] ELSE [s EXCEPT !.esc = ""]
    ELSE IF s.esc = "[" THEN
        IF (c >= 48 /\ c <= 57) \/ c = 59 THEN [s EXCEPT !.par = Append(@, c)]
        ELSE CASE c = 72 /\ s.par = <<>> -> [s EXCEPT !.esc = "", !.row = IF s.done = 0 THEN @ ELSE <<>>, !.col = 0, !.done = 0]
               [] c = 74 /\ s.par \in {<<>>, <<50>>} -> [s EXCEPT !.esc = "", !.row = IF s.par = <<>> THEN Take(@, MinOf(Len(@), s.col)) ELSE <<>>, !.done = IF s.par = <<>> THEN @ ELSE 0]
               [] c = 75 /\ s.par = <<>> -> [s EXCEPT !.esc = "", !.row = Take(@, MinOf(Len(@), s.col))]
               [] c = 68 -> [s EXCEPT !.esc = "", !.col = MaxOf(0, @ - 1)]
               [] c = 67 -> [s EXCEPT !.esc = "", !.col = @ + 1]
               [] OTHER -> [s EXCEPT !.esc = ""]                 \* colors
    ELSE CASE c = 27 -> [s EXCEPT !.esc = "e"]
           [] c = 13 -> [s EXCEPT !.col = 0]
           [] c = 10 -> [s EXCEPT !.row = <<>>, !.done = @ + 1]
           [] c = 8  -> [s EXCEPT !.col = MaxOf(0, @ - 1)]
           [] c = 9  -> [s EXCEPT !.col = (@ \div 8 + 1) * 8]
           [] c < 32 -> s
           [] OTHER  -> [s EXCEPT !.row = Put(@, s.col, c), !.col = @ + 1]
Screen(s, bytes) == FoldLeft(ScrByte, s, bytes)

RECURSIVE TrimRight(_)
TrimRight(t) == IF t # <<>> /\ LastOf(t) = 32 THEN TrimRight(Front(t)) ELSE t

(* the row shows the base (with the prompt, up to column col) and then the line *)
Shows(s, base, col, line, pos) ==
    /\ s.esc = "" /\ s.col = col + pos
    /\ TrimRight(s.row) = TrimRight(Take(Pad(base, col), col) \o line \o Drop(base, col + Len(line)))

(* ---------- what a session writes reaches the client encoded (C25) --------- *)
RECURSIVE Encode(_)
Encode(t) == IF Len(t) <= 64 THEN FoldLeft(LAMBDA acc, c : IF c = 10 THEN acc \o <<13, 10>> ELSE Append(acc, c), <<>>, t)
             ELSE Encode(Take(t, Len(t) \div 2)) \o Encode(Drop(t, Len(t) \div 2))

(* colors only change the colors *)
StripColors(t) ==
    LET f(a, c) == CASE a.m = 0 -> IF c = 27 THEN [a EXCEPT !.m = 1] ELSE [a EXCEPT !.o = Append(@, c)]
                     [] a.m = 1 -> IF c = 91 THEN [a EXCEPT !.m = 2, !.h = <<27, 91>>] ELSE [a EXCEPT !.m = 0, !.o = @ \o <<27, c>>]
                     [] a.m = 2 -> IF (c >= 48 /\ c <= 57) \/ c = 59 THEN [a EXCEPT !.h = Append(@, c)]
                                   ELSE [a EXCEPT !.m = 0, !.o = IF c = 109 THEN @ ELSE @ \o Append(a.h, c)]
    IN FoldLeft(f, [m |-> 0, o |-> <<>>, h |-> <<>>], t).o

(* telnet sequences from the server: the data without them, and them *)
StripTelnet(t) ==
    LET f(a, c) == CASE a.m = 0 -> IF c = IAC THEN [a EXCEPT !.m = 1, !.h = <<c>>] ELSE [a EXCEPT !.d = Append(@, c)]
                     [] a.m = 1 -> CASE c = IAC -> [a EXCEPT !.m = 0, !.d = Append(@, c)]
                                     [] c \in {WILL, WONT, DO, DONT} -> [a EXCEPT !.m = 2, !.h = Append(@, c)]
                                     [] c = SB -> [a EXCEPT !.m = 3, !.h = Append(@, c)]
                                     [] OTHER -> [a EXCEPT !.m = 0, !.s = Append(@, Append(a.h, c))]
                     [] a.m = 2 -> [a EXCEPT !.m = 0, !.s = Append(@, Append(a.h, c))]
                     [] a.m = 3 -> IF c = IAC THEN [a EXCEPT !.m = 4] ELSE [a EXCEPT !.h = Append(@, c)]
                     [] a.m = 4 -> IF c = SE THEN [a EXCEPT !.m = 0, !.s = Append(@, a.h)] ELSE [a EXCEPT !.m = 3, !.h = @ \o <<IAC, c>>]
        r == FoldLeft(f, [m |-> 0, d |-> <<>>, s |-> <<>>, h |-> <<>>], t)
    IN [data |-> r.d, seqs |-> r.s, whole |-> r.m = 0]
=============================================================================
