------------------------------ MODULE TraceLife ------------------------------
(* Validates traces recorded by harness/lifedrv.cpp: "op" and "ret" around what
   the application does, and in between what the library did.                  *)
EXTENDS Life, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, w, cur     \* cur: the operation being done
vars == <<tr, l, w, cur>>
Obs == Traces[tr].obs
Idle == [o |-> "idle"]
Init == tr \in 1 .. Len(Traces) /\ l = 1 /\ w = LifeInit(Traces[tr].kind) /\ cur = Idle

Running == cur.o \in {"poll", "settle"}
Is(x, e) == x.m = e.m /\ x.k = e.k
LiveSessions(x) == {c \in Clients : Exists(x, c)}
MayBeReleased(x) == {c \in LiveSessions(x) : CanRelease(x, c)}
Commands == 7

Seen(e) ==
    CASE e.e = "op"   -> cur.o = "idle" /\ cur' = e /\ Legal(w, e) /\ w' = Op(w, e)
      [] e.e = "skip" -> cur.o = "idle" /\ UNCHANGED <<w, cur>>
      [] e.e = "run"  -> /\ Running /\ cur' = cur
                         /\ IF e.c \in Clients THEN CanLine(w, e.c) /\ Is(Head(w.cl[e.c].todo), e) /\ (e.m = "q" => w.q = "en") /\ w' = Line(w, e.c)
                            ELSE CanTyped(w) /\ OnInput(w) = e.c /\ Is(Head(w.inp), e) /\ (e.m = "q" => w.q = "en") /\ w' = Typed(w)
      [] e.e = "wrong" -> /\ Running /\ cur' = cur /\ w.q # "en"
                          /\ \/ \E c \in Clients : CanLine(w, c) /\ Head(w.cl[c].todo).m = "q" /\ w' = Line(w, c)
                             \/ CanTyped(w) /\ Head(w.inp).m = "q" /\ w' = Typed(w)
      [] e.e = "exit" -> Running /\ cur' = cur /\ \E c \in Clients : CanLine(w, c) /\ Head(w.cl[c].todo).m = "exit" /\ w' = Line(w, c)
      [] e.e = "fn"   -> Running /\ cur' = cur /\ CanFn(w) /\ Is(Head(w.ps), e) /\ w' = Fn(w)
      [] e.e = "enter" -> /\ cur' = cur
                          /\ IF cur.o \in {"mkL", "mkA"} THEN w' = w
                             ELSE Running /\ \E i \in DOMAIN w.back : CanAccept(w, i) /\ w' = Accept(w, i)
      [] e.e = "got"  -> /\ cur' = cur
                         /\ IF e.c \in Clients THEN w.cl[e.c].bc # <<>> /\ Head(w.cl[e.c].bc) = e.k /\ w' = [w EXCEPT !.cl[e.c].bc = Tail(@)]
                            ELSE w.bc # <<>> /\ Head(w.bc) = e.k /\ w' = [w EXCEPT !.bc = Tail(@)]
      [] e.e = "closed" -> cur' = cur /\ w.cl[e.c].st \in {"exiting", "refused", "dead"} /\ w' = [w EXCEPT !.cl[e.c].cls = TRUE]
      [] e.e = "ret"  -> /\ cur.o # "idle" /\ cur' = Idle
                         /\ cur.o = "settle" => Settled(w)
                         /\ w' = IF cur.o = "settle" THEN AfterSettle(w) ELSE w
                         /\ e.fns = Len(w'.ps)
                         /\ e.ses <= Cardinality(LiveSessions(w'))
                         /\ e.ses >= Cardinality(LiveSessions(w') \ MayBeReleased(w'))
                         /\ e.cmds = (IF w'.cli THEN Commands - (IF w'.q = "gone" THEN 1 ELSE 0) ELSE 0)
                         /\ \A c \in Clients : w'.cl[c].st = "dead" /\ ~w'.cl[c].shut => w'.cl[c].cls
      [] OTHER -> FALSE
(* a connection that was closed is released without a trace *)
Quiet == /\ l <= Len(Obs) /\ Running /\ Obs[l].e = "ret"
         /\ \E c \in Clients : CanRelease(w, c) /\ (w.cl[c].shut \/ w.cl[c].cls) /\ w' = Release(w, c)
         /\ UNCHANGED <<tr, l, cur>>
Step == l <= Len(Obs) /\ Seen(Obs[l]) /\ l' = l + 1 /\ tr' = tr
Next == Step \/ Quiet
Spec == Init /\ [][Next]_vars
Report == (l' = l + 1 /\ l' > Len(Obs)) => PrintT("ACCEPT " \o ToString(tr))
Track == /\ Report
         /\ (Len(Traces) <= 3 => PrintT("AT " \o ToString(tr) \o " " \o ToString(l')))
=============================================================================
