------------------------------- MODULE KbdAbs -------------------------------
(* What a local session promises about its input (C23): a byte typed is taken
   once, in order, by the keyboard while no handler runs, or by the handler that
   runs;  what the keyboard takes is delivered in order as long as the session
   exists; the terminal is in raw mode at the prompt only.
   A line is a command: 'r' reads a line from the terminal, 'p' does not.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES tty,    \* typed, not taken
          eof,    \* nothing more will be typed
          alive,  \* the session exists
          seen,   \* the keyboard has seen the end of the input
          keys,   \* taken by the keyboard, not delivered
          line,   \* of the editor
          hnd,    \* the running handler: "" none, "r", "p"
          raw,    \* mode of the terminal
          exited  \* the session has been ended by the end of the input
avars == <<tty, eof, alive, seen, keys, line, hnd, raw, exited>>

EOF == -1
Type(b) == tty' = tty \o b /\ ~eof /\ UNCHANGED <<eof, alive, seen, keys, line, hnd, raw, exited>>
Close == eof' = TRUE /\ UNCHANGED <<tty, alive, seen, keys, line, hnd, raw, exited>>
Create == /\ ~alive /\ alive' = TRUE /\ seen' = FALSE /\ line' = <<>> /\ exited' = FALSE
          /\ UNCHANGED <<tty, eof, keys, hnd, raw>>
TakeKey == /\ alive /\ hnd = "" /\ ~seen
           /\ IF tty # <<>> THEN tty' = Tail(tty) /\ keys' = Append(keys, Head(tty)) /\ seen' = seen
              ELSE eof /\ keys' = Append(keys, EOF) /\ seen' = TRUE /\ tty' = tty
           /\ UNCHANGED <<eof, alive, line, hnd, raw, exited>>
(* the mode changes on the way to a handler and back *)
Mode(m) == raw' = m /\ UNCHANGED <<tty, eof, alive, seen, keys, line, hnd, exited>> /\ hnd = ""
Deliver == /\ alive /\ hnd = "" /\ keys # <<>>
           /\ keys' = Tail(keys)
           /\ line' = (IF Head(keys) = EOF \/ Head(keys) = 10 THEN <<>> ELSE Append(line, Head(keys)))
           /\ exited' = (exited \/ Head(keys) = EOF)
           /\ hnd' = hnd /\ UNCHANGED <<tty, eof, alive, seen, raw>>
(* the handler of a line begins: in the mode of before the session *)
Start(h) == hnd = "" /\ ~raw /\ hnd' = h /\ UNCHANGED <<tty, eof, alive, seen, keys, line, raw, exited>>
Read == /\ hnd = "r" /\ tty # <<>> /\ tty' = Tail(tty) /\ UNCHANGED <<eof, alive, seen, keys, line, hnd, raw, exited>>
End == hnd # "" /\ hnd' = "" /\ UNCHANGED <<tty, eof, alive, seen, keys, line, raw, exited>>
(* what was taken and not delivered is lost with the session *)
Destroy == alive /\ alive' = FALSE /\ ~raw /\ hnd = "" /\ keys' = <<>> /\ UNCHANGED <<tty, eof, seen, line, hnd, raw, exited>>

Next == (\E n \in 1 .. 3 : \E b \in [1 .. n -> {10, 112, 114}] : Type(b)) \/ Close \/ Create \/ TakeKey \/ Mode(TRUE) \/ Mode(FALSE) \/ Deliver
        \/ (\E h \in {"r", "p"} : Start(h)) \/ Read \/ End \/ Destroy
=============================================================================
