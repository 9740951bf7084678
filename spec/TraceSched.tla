----------------------------- MODULE TraceSched -----------------------------
(* Validates traces recorded from schedulers (harness/schedrv.cpp) against
   SchedAbs: a trace is accepted if some order of the silent effects explains
   it.  Events: call, ret (r), start, end, thrown, stuck.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, q, stopped, thr, ended
vars == <<tr, l, q, stopped, thr, ended>>
A == INSTANCE SchedAbs WITH Prog <- Traces[tr]
Hdr == Traces[tr]
Obs == Traces[tr].obs

ThreadsOf(k) == 1 .. Len(Traces[k].threads)
Init == /\ tr \in 1 .. Len(Traces) /\ l = 1 /\ q = <<>> /\ stopped = FALSE /\ ended = 0
        /\ thr = [t \in ThreadsOf(tr) |-> <<[k |-> "base", f |-> 0, i |-> 1, n |-> 0, x |-> 0, e |-> FALSE, d |-> FALSE]>>]

(* nobody knows the result of what returns nothing *)
Known(k) == Hdr.kind = "loop" \/ k = "stopped"
Observe ==
    /\ l <= Len(Obs)
    /\ LET e == Obs[l]
           t == e.t
       IN CASE e.e = "call"   -> A!Call(t) /\ A!Op(t).o = e.o
            [] e.e = "ret"    -> /\ A!Top(t).k = e.o
                                 /\ IF e.r = -1 THEN -1 \in A!Result(t) /\ A!Top(t).x = e.x
                                    ELSE IF Known(e.o) THEN e.r \in A!Result(t)
                                    ELSE A!Result(t) \cap {0, 1} # {}
                                 /\ A!Return(t)
            [] e.e = "start"  -> A!Start(t) /\ A!Top(t).f = e.f
            [] e.e = "end"    -> A!End(t) /\ A!Top(t).f = e.f
            [] e.e = "thrown" -> A!Throw(t) /\ A!Top(t).f = e.f
            [] e.e = "await"  -> A!Await(t)
            [] e.e = "stuck"  -> A!Quiescent /\ UNCHANGED <<q, stopped, thr, ended>>
            [] OTHER          -> FALSE
    /\ l' = l + 1 /\ tr' = tr
Hidden == l <= Len(Obs) /\ UNCHANGED <<tr, l>> /\ \E t \in A!Threads : A!Silent(t)
Next == Observe \/ Hidden
Spec == Init /\ [][Next]_vars

(* an accepted trace; how far the others got *)
Report == (l' = l + 1 /\ l' > Len(Obs)) => PrintT("ACCEPT " \o ToString(tr))
Track == /\ Report
         /\ (Len(Traces) <= 3 => PrintT("AT " \o ToString(tr) \o " " \o ToString(l')))
=============================================================================
