------------------------------ MODULE SchedAbs ------------------------------
(* What a scheduler promises (C19, C20), over a program: threads that post
   functions, run the scheduler and stop it, and functions that do the same.
   Prog = [threads: sequence of operation lists, fns: sequence of operation
   lists (the bodies of the functions), guard: BOOLEAN].
   An operation is [o: "post" (f), "run", "exec", "poll", "stop", "stopped",
   "await" (n: until that many functions have ended), "throw" (x)].
   A thread is a stack of frames.  "base" and "fn" frames execute operations
   (i: the next one), the others are calls of the scheduler in progress:
   f: the function taken and not started yet;  n: functions executed;
   x: the exception to propagate;  e: nothing could be taken at some moment of
   the call;  d: the effect of the call has happened.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES Prog      \* never changes: a variable so that traces of many programs can be validated together
VARIABLES q, stopped, thr, ended
absvars == <<q, stopped, thr, ended>>

Threads == 1 .. Len(Prog.threads)
Fr(k, f) == [k |-> k, f |-> f, i |-> 1, n |-> 0, x |-> 0, e |-> FALSE, d |-> FALSE]
Top(t)  == thr[t][Len(thr[t])]
Runs(fr) == fr.k \in {"run", "exec", "poll"}
Does(fr) == fr.k \in {"base", "fn"}
OpsOf(t) == IF Top(t).k = "fn" THEN Prog.fns[Top(t).f] ELSE Prog.threads[t]
HasOp(t) == Does(Top(t)) /\ Top(t).i <= Len(OpsOf(t))
Op(t)    == OpsOf(t)[Top(t).i]

(* nothing can be taken now: remembered by the calls in progress that do not wait *)
Mark(th, nothing) == [t \in Threads |-> [j \in 1 .. Len(th[t]) |-> IF th[t][j].k = "poll" /\ nothing THEN [th[t][j] EXCEPT !.e = TRUE] ELSE th[t][j]]]
Put(th, t, fr)  == [th EXCEPT ![t] = Append(Front(@), fr)]
PushF(th, t, fr) == [th EXCEPT ![t] = Append([@ EXCEPT ![Len(@)].i = @ + 1], fr)]   \* the operation at i is called
PopF(th, t)     == [th EXCEPT ![t] = Front(@)]

Init == q = <<>> /\ stopped = FALSE /\ ended = 0 /\ thr = [t \in Threads |-> <<Fr("base", 0)>>]

Call(t) ==
    /\ HasOp(t) /\ Op(t).o \in {"post", "run", "exec", "poll", "stop", "stopped"}
    /\ LET o == Op(t)
           fr == [Fr(o.o, IF o.o = "post" THEN o.f ELSE 0) EXCEPT !.e = o.o = "poll" /\ (q = <<>> \/ stopped), !.d = o.o = "stopped" /\ stopped]
       IN thr' = PushF(thr, t, fr)
    /\ UNCHANGED <<q, stopped, ended>>
Await(t) ==
    /\ HasOp(t) /\ Op(t).o = "await" /\ ended >= Op(t).n
    /\ thr' = [thr EXCEPT ![t][Len(thr[t])].i = @ + 1]
    /\ UNCHANGED <<q, stopped, ended>>

(* the effects, at some moment of the call *)
Push(t) == /\ Top(t).k = "post" /\ ~Top(t).d
           /\ q' = Append(q, Top(t).f) /\ thr' = Put(thr, t, [Top(t) EXCEPT !.d = TRUE])
           /\ UNCHANGED <<stopped, ended>>
DoStop(t) == /\ Top(t).k = "stop" /\ ~Top(t).d
             /\ stopped' = TRUE /\ thr' = Mark(Put(thr, t, [Top(t) EXCEPT !.d = TRUE]), TRUE)
             /\ UNCHANGED <<q, ended>>
Take(t) == /\ Runs(Top(t)) /\ Top(t).f = 0 /\ Top(t).x = 0 /\ (Top(t).k = "run" \/ Top(t).n = 0)
           /\ ~stopped /\ q # <<>>
           /\ q' = Tail(q) /\ thr' = Mark(Put(thr, t, [Top(t) EXCEPT !.f = Head(q)]), Tail(q) = <<>>)
           /\ UNCHANGED <<stopped, ended>>
Silent(t) == Push(t) \/ DoStop(t) \/ Take(t)

Start(t) == /\ Runs(Top(t)) /\ Top(t).f # 0
            /\ thr' = [thr EXCEPT ![t] = Append(Append(Front(@), [Top(t) EXCEPT !.f = 0, !.n = @ + 1]), Fr("fn", Top(t).f))]
            /\ UNCHANGED <<q, stopped, ended>>
End(t)  == /\ Top(t).k = "fn" /\ ~HasOp(t)
           /\ thr' = PopF(thr, t) /\ ended' = ended + 1 /\ UNCHANGED <<q, stopped>>
Throw(t) == /\ Top(t).k = "fn" /\ HasOp(t) /\ Op(t).o = "throw"
            /\ LET p == PopF(thr, t) IN thr' = [p EXCEPT ![t] = Append(Front(@), [@[Len(@)] EXCEPT !.x = Op(t).x])]
            /\ ended' = ended + 1 /\ UNCHANGED <<q, stopped>>

(* the result of a call: r = -1 an exception, 0 false, 1 true or nothing *)
Result(t) == LET fr == Top(t)
             IN CASE Runs(fr) /\ fr.f # 0 -> {}
                  [] Runs(fr) /\ fr.x # 0 -> {-1}
                  [] fr.k = "run"  -> IF stopped THEN {1} ELSE {}
                  [] fr.k = "exec" -> IF fr.n = 1 THEN {1} ELSE IF stopped THEN {0} ELSE {}
                  [] fr.k = "poll" -> IF fr.n = 1 THEN {1} ELSE IF fr.e THEN {0} ELSE {}
                  [] fr.k = "stopped" -> (IF stopped THEN {1} ELSE {}) \cup (IF ~fr.d THEN {0} ELSE {})
                  [] fr.k \in {"post", "stop"} -> IF fr.d THEN {1} ELSE {}
                  [] OTHER -> {}
Return(t) == Result(t) # {} /\ thr' = PopF(thr, t) /\ UNCHANGED <<q, stopped, ended>>

Next == \E t \in Threads : Call(t) \/ Await(t) \/ Silent(t) \/ Start(t) \/ End(t) \/ Throw(t) \/ Return(t)
Spec == Init /\ [][Next]_absvars

(* nothing more may happen by itself: nobody is inside a call it could leave, and functions
   wait only if nobody is running the scheduler *)
Waits(t) == Top(t).k \in {"run", "exec"} /\ Top(t).f = 0 /\ Top(t).x = 0 /\ ~(Top(t).k = "exec" /\ Top(t).n > 0) /\ ~stopped
Done(t)  == Top(t).k = "base" /\ ~HasOp(t)
Stays(t) == Waits(t) \/ Done(t) \/ (HasOp(t) /\ Op(t).o = "await" /\ ended < Op(t).n)
Quiescent == (\A t \in Threads : Stays(t)) /\ ((\E t \in Threads : Waits(t)) => q = <<>>)
=============================================================================
