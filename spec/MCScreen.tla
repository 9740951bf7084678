------------------------------ MODULE MCScreen ------------------------------
(* C16 on the design: how the line editor redraws.  For each key it sends only
   some bytes; interpreting them (CliTerminal!Screen) must leave the prompt, the
   whole line and the cursor, whatever was on the row before.  The editor of
   CliTerminal says what the line is; this module says what is sent.
   Environment: LEN, the longest line; FAULT, a known mistake to be found.     *)
EXTENDS CliTerminal, IOUtils, TLC

Faulty == IOEnv.FAULT
N == atoi(IOEnv.LEN)
Chars == {97, 98}
BS(n) == [i \in 1 .. n |-> 8]
SP(n) == [i \in 1 .. n |-> 32]
CSI(t) == <<27, 91>> \o t
Before == IF IOEnv.COLOR = "1" THEN CSI(<<51, 50, 109>>) ELSE <<>>
After  == IF IOEnv.COLOR = "1" THEN CSI(<<48, 109>>) ELSE <<>>
Prompt == Before \o <<80, 62, 32>> \o After
Width  == 3                                     \* of the prompt
Outputs == {<<>>, <<97, 10>>, <<97, 98>>, <<10, 97>>}   \* what a command may print (printable, as Shows assumes)
Lines == UNION {[1 .. k -> Chars] : k \in 0 .. N}   \* what browsing or completion may put on the line

(* what is sent for a key, the editor being in state e *)
Sent(e, key) ==
    LET n == Len(e.line)
        rest == Drop(e.line, e.pos)
    IN CASE key.k = "char"  -> Before \o <<key.c>> \o rest \o After \o BS(IF Faulty = "back" THEN Len(rest) + 1 ELSE Len(rest))
         [] key.k = "left"  -> IF e.pos > 0 \/ Faulty = "left" THEN <<8>> ELSE <<>>
         [] key.k = "right" -> IF e.pos < n THEN Before \o <<e.line[e.pos + 1]>> \o After ELSE <<>>
         [] key.k = "home"  -> IF Faulty = "return" THEN <<13>> ELSE BS(e.pos)
         [] key.k = "end"   -> Before \o rest \o After
         [] key.k = "backspace" -> IF e.pos = 0 THEN <<>> ELSE <<8>> \o rest \o <<32>> \o BS(Len(rest) + 1)
         [] key.k = "delete" -> IF e.pos = n THEN <<>>
                                ELSE Tail(rest) \o (IF Faulty = "stale" THEN <<>> ELSE <<32>>) \o BS(IF Faulty = "stale" THEN Len(rest) - 1 ELSE Len(rest))
(* the line becomes t *)
SentSet(e, t) ==
    LET k == IF Len(t) < Len(e.line) /\ Faulty # "shorter" THEN Len(e.line) - Len(t) ELSE 0
    IN Before \o BS(IF Faulty = "column" THEN Len(e.line) ELSE e.pos) \o t \o After \o SP(k) \o BS(k)
ClearScr == CSI(<<72>>) \o CSI(<<74>>)

VARIABLES ed, scr, base, col, sent
vars == <<ed, scr, base, col, sent>>

At(r) == base' = r.row /\ col' = r.col
Init == /\ ed = EdInit /\ sent = <<>>
        /\ \E o \in Outputs : LET r == Screen(ScrInit, Encode(o \o Prompt)) IN scr = r /\ base = r.row /\ col = r.col

Type == \E key \in {[k |-> x, c |-> 0] : x \in {"left", "right", "home", "end", "backspace", "delete"}} \cup {[k |-> "char", c |-> x] : x \in Chars} :
            /\ key.k = "char" => Len(ed.line) < N
            /\ ed' = Edit(ed, key) /\ sent' = Sent(ed, key)
            /\ scr' = Screen(scr, sent')
            /\ UNCHANGED <<base, col>>
SetLine == \E t \in Lines : /\ ed' = EdSet(t) /\ sent' = SentSet(ed, t) /\ scr' = Screen(scr, sent')
                            /\ UNCHANGED <<base, col>>
Enter == \E o \in Outputs : /\ ed' = EdInit /\ sent' = <<13, 13, 10>> \o Encode(o \o Prompt)
                            /\ scr' = Screen(scr, sent') /\ At(scr')
(* completions are listed, and the line is shown again *)
List == LET again == [ed EXCEPT !.pos = IF Faulty = "again" THEN @ ELSE 0]
            head == Encode(<<10, 9, 97, 9, 98, 10>> \o Prompt)
        IN /\ ed' = EdSet(ed.line)
           /\ sent' = head \o SentSet(again, ed.line) /\ scr' = Screen(scr, sent')
           /\ LET r == Screen(scr, head) IN At(r)
Clear == LET again == [ed EXCEPT !.pos = 0]
             head == ClearScr \o Prompt
         IN /\ ed' = EdSet(ed.line)
            /\ sent' = head \o SentSet(again, ed.line) /\ scr' = Screen(scr, sent')
            /\ LET r == Screen(scr, head) IN At(r)
Next == Type \/ SetLine \/ Enter \/ List \/ Clear
Spec == Init /\ [][Next]_vars

(* number of rows above does not matter *)
View == <<ed, [scr EXCEPT !.done = IF @ = 0 THEN 0 ELSE 1], base, col>>

EditorOk == EdInv(ed)
ScreenOk == Shows(scr, base, col, ed.line, ed.pos)
(* the prompt is never touched *)
PromptOk == col >= Width /\ SubSeq(Pad(scr.row, col), col - 2, col) = <<80, 62, 32>>
=============================================================================
