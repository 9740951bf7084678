------------------------------ MODULE LoopLock ------------------------------
(* How LoopScheduler keeps the promises of SchedAbs: a queue and a flag behind a
   mutex and a condition variable, step by step, one step between two points
   where a thread may lose the processor: before a lock, after an unlock, before
   a wait, asleep, before a notification, at the start and the end of a function.
   The same frames as in SchedAbs with the point pc where the thread is.
   Environment SCEN: [threads, fns, depth, spurious, faulty, emit].             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Scen == JsonDeserialize(IOEnv.SCEN)
Prog == [threads |-> Scen.threads, fns |-> Scen.fns]
(* "": the algorithm of the code;  otherwise one of the faults the properties must find *)
Faulty == Scen.faulty

VARIABLES tasks, running, owner, asleep, stk, ended, hist
vars == <<tasks, running, owner, asleep, stk, ended, hist>>
Threads == 1 .. Len(Prog.threads)

Fr(k, f, pc) == [k |-> k, f |-> f, i |-> 1, n |-> 0, x |-> 0, e |-> FALSE, d |-> FALSE, pc |-> pc]
Top(t)  == stk[t][Len(stk[t])]
Does(fr) == fr.k \in {"base", "fn"}
OpsOf(t) == IF Top(t).k = "fn" THEN Prog.fns[Top(t).f] ELSE Prog.threads[t]
HasOp(t) == Does(Top(t)) /\ Top(t).i <= Len(OpsOf(t))
Op(t)    == OpsOf(t)[Top(t).i]
SetTop(t, fr) == stk' = [stk EXCEPT ![t] = Append(Front(@), fr)]
Pc(t) == Top(t).pc

Init == /\ tasks = <<>> /\ running = TRUE /\ owner = 0 /\ asleep = {} /\ ended = 0 /\ hist = <<>>
        /\ stk = [t \in Threads |-> <<Fr("base", 0, "go")>>]

Same == UNCHANGED <<tasks, running, owner, asleep, ended>>

(* ---------- what a thread does without losing the processor --------------- *)
Call(t) == /\ HasOp(t) /\ Pc(t) = "go" /\ Op(t).o \in {"post", "run", "exec", "poll", "stop", "stopped"}
           /\ stk' = [stk EXCEPT ![t] = Append([@ EXCEPT ![Len(@)].i = @ + 1],
                        [Fr(Op(t).o, IF Op(t).o = "post" THEN Op(t).f ELSE 0, "lock") EXCEPT
                            !.e = Op(t).o = "poll" /\ (tasks = <<>> \/ ~running), !.d = Op(t).o = "stopped" /\ ~running])]
           /\ Same
Return(t) == /\ Pc(t) = "ret" /\ stk' = [stk EXCEPT ![t] = Front(@)] /\ Same
Throw(t) == /\ HasOp(t) /\ Pc(t) = "go" /\ Top(t).k = "fn" /\ Op(t).o = "throw"
            /\ stk' = [stk EXCEPT ![t] = Append(Front(Front(@)), [@[Len(@) - 1] EXCEPT !.x = Op(t).x, !.pc = "ret"])]
            /\ ended' = ended + 1 /\ UNCHANGED <<tasks, running, owner, asleep>>
Start(t) == /\ Pc(t) = "start"
            /\ stk' = [stk EXCEPT ![t] = Append(Append(Front(@), [Top(t) EXCEPT !.f = 0, !.n = @ + 1, !.pc = "after"]), Fr("fn", Top(t).f, "yield"))]
            /\ Same
End(t) == /\ Top(t).k = "fn" /\ ~HasOp(t) /\ Pc(t) = "go"
          /\ stk' = [stk EXCEPT ![t] = Front(@)] /\ ended' = ended + 1 /\ UNCHANGED <<tasks, running, owner, asleep>>
Inner(t) == Call(t) \/ Return(t) \/ Throw(t) \/ Start(t) \/ End(t)

(* ---------- steps after which or before which it may lose it ------------------ *)
Mark(th, none) == [t \in Threads |-> [j \in 1 .. Len(th[t]) |-> IF th[t][j].k = "poll" /\ none THEN [th[t][j] EXCEPT !.e = TRUE] ELSE th[t][j]]]
Set2(t, none, fr) == stk' = Mark([stk EXCEPT ![t] = Append(Front(@), fr)], none)

Locked(t) ==   \* it has the mutex and goes on to the next point
    LET fr == Top(t)
    IN CASE fr.k = "post" -> /\ tasks' = Append(tasks, fr.f) /\ SetTop(t, [fr EXCEPT !.pc = "notify", !.d = TRUE])
                             /\ UNCHANGED <<running, asleep, ended>>
         [] fr.k = "stop" -> /\ running' = FALSE /\ Set2(t, TRUE, [fr EXCEPT !.pc = "notify", !.d = TRUE])
                             /\ UNCHANGED <<tasks, asleep, ended>>
         [] fr.k = "stopped" -> SetTop(t, [fr EXCEPT !.pc = "unlock"]) /\ UNCHANGED <<tasks, running, asleep, ended>>
         [] fr.k \in {"run", "exec", "poll"} ->
              IF running /\ tasks # <<>>
              THEN /\ tasks' = Tail(tasks) /\ Set2(t, Tail(tasks) = <<>>, [fr EXCEPT !.f = Head(tasks), !.pc = "unlock"])
                   /\ UNCHANGED <<running, asleep, ended>>
              ELSE IF running /\ fr.k # "poll" THEN SetTop(t, [fr EXCEPT !.pc = "wait"]) /\ UNCHANGED <<tasks, running, asleep, ended>>
              ELSE SetTop(t, [fr EXCEPT !.pc = "unlock"]) /\ UNCHANGED <<tasks, running, asleep, ended>>
NeedsLock(t) == ~(Faulty = "stop-unlocked" /\ Top(t).k = "stop")
Lock(t) == /\ Pc(t) = "lock" /\ t \notin asleep
           /\ IF NeedsLock(t) THEN owner = 0 /\ owner' = t ELSE owner' = owner
           /\ Locked(t)
Notify(t) == /\ Pc(t) = "notify"
             /\ \E woken \in (IF Faulty = "no-notify-post" /\ Top(t).k = "post" THEN {{}}
                              ELSE IF Faulty = "notify-one" /\ asleep # {} THEN {{u} : u \in asleep} ELSE {asleep}) :
                   asleep' = asleep \ woken
             /\ SetTop(t, [Top(t) EXCEPT !.pc = "unlock"]) /\ UNCHANGED <<tasks, running, owner, ended>>
Unlock(t) == /\ Pc(t) = "unlock" /\ owner' = (IF owner = t THEN 0 ELSE owner)
             /\ SetTop(t, [Top(t) EXCEPT !.pc = "free"]) /\ UNCHANGED <<tasks, running, asleep, ended>>
Free(t) == /\ Pc(t) = "free"
           /\ SetTop(t, [Top(t) EXCEPT !.pc = IF Top(t).k \in {"run", "exec", "poll"} /\ Top(t).f # 0 THEN "start" ELSE "ret"]) /\ Same
Wait(t) == /\ Pc(t) = "wait" /\ owner' = 0 /\ asleep' = asleep \cup {t}
           /\ SetTop(t, [Top(t) EXCEPT !.pc = "lock"]) /\ UNCHANGED <<tasks, running, ended>>
Yield(t) == Pc(t) = "yield" /\ SetTop(t, [Top(t) EXCEPT !.pc = "go"]) /\ Same        \* a function begins
After(t) == /\ Pc(t) = "after"                                                      \* it has ended
            /\ SetTop(t, [Top(t) EXCEPT !.pc = IF Top(t).k = "run" THEN "lock" ELSE "ret"]) /\ Same
Await(t) == /\ HasOp(t) /\ Pc(t) = "go" /\ Op(t).o = "await" /\ ended >= Op(t).n
            /\ stk' = [stk EXCEPT ![t][Len(stk[t])].i = @ + 1] /\ Same
Outer(t) == Lock(t) \/ Notify(t) \/ Unlock(t) \/ Free(t) \/ Wait(t) \/ Yield(t) \/ After(t) \/ Await(t)
Wakeup(t) == /\ Scen.spurious = 1 /\ t \in asleep /\ asleep' = asleep \ {t} /\ UNCHANGED <<tasks, running, owner, stk, ended, hist>>

HasInner(t) == ENABLED Inner(t)
Busy == {t \in Threads : HasInner(t)}
Step(t) == IF Busy # {} THEN t = (CHOOSE u \in Busy : TRUE) /\ Inner(t) /\ hist' = hist
           ELSE Outer(t) /\ hist' = IF Scen.emit = 1 THEN Append(hist, t) ELSE hist
Next == \E t \in Threads : Step(t) \/ Wakeup(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

View == <<tasks, running, owner, asleep, stk, ended>>
Emit == Scen.emit = 1 => PrintT("T " \o ToJson(hist'))

(* ---------- properties ----------------------------------------------------- *)
(* it implements the abstract scheduler *)
AbsFrame(fr) == [k |-> fr.k, f |-> fr.f, i |-> fr.i, n |-> fr.n, x |-> fr.x, e |-> fr.e, d |-> fr.d]
Abs == INSTANCE SchedAbs WITH q <- tasks, stopped <- ~running,
            thr <- [t \in Threads |-> [j \in 1 .. Len(stk[t]) |-> AbsFrame(stk[t][j])]]
Refines == Abs!Init /\ [][Abs!Next]_<<tasks, running, [t \in Threads |-> [j \in 1 .. Len(stk[t]) |-> AbsFrame(stk[t][j])]], ended>>

Mutex == owner # 0 => Cardinality({t \in Threads : Pc(t) \in {"notify", "unlock", "wait"} /\ NeedsLock(t)}) <= 1
(* when nothing can happen any more the abstract scheduler has nothing to do either *)
NoStep == \A t \in Threads : ~ENABLED Inner(t) /\ ~ENABLED Outer(t)
NoLostWakeup == NoStep => Abs!Quiescent
(* stop ends every run *)
StopEnds == (~running) ~> (\A t \in Threads : \A j \in 1 .. Len(stk[t]) : stk[t][j].k \notin {"run", "exec"})
Waiting(t) == Top(t).k = "run" /\ Pc(t) \in {"lock", "wait", "unlock", "free", "after", "start"} /\ Top(t).x = 0
(* what is posted is started while somebody runs the scheduler *)
Served == (tasks # <<>> /\ running) ~> (tasks = <<>> \/ ~running \/ \A t \in Threads : ~Waiting(t))
=============================================================================
