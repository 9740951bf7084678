-------------------------------- MODULE Life --------------------------------
(* Which objects of an application exist, what they refer to, what is pending
   for each of them, and what becomes of it when one is destroyed (C27).
     ctx   the asio context (or the queue of the loop scheduler)
     sch   the scheduler: kind "own" and "loop" destroy the context with it, "ext" does not
     cli   the command tree;    q one of its commands, with a handle
     v     the telnet server;   cl its clients, whose sessions the context keeps
     L, A  a local terminal session and an asynchronous session, on the same input
   Pending: lines sent by clients (cl[c].todo) or typed (inp), posted functions
   (ps), connections not accepted (back), broadcasts not received (bc).
   A line or a function is [m, k]: what it does, and a tag.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Clients == 1 .. 3
LOCAL1 == 8  ASYNC1 == 9
NoClient == [st |-> "none", todo |-> <<>>, bc |-> <<>>, shut |-> FALSE, cls |-> FALSE]
LifeInit(kind) ==
    [kind |-> kind, ctx |-> TRUE, sch |-> TRUE, cli |-> TRUE, v |-> FALSE, L |-> FALSE, A |-> FALSE, q |-> "en",
     inp |-> <<>>, ps |-> <<>>, back |-> <<>>, cl |-> [c \in Clients |-> NoClient], bc |-> <<>>]

Exists(w, c) == w.cl[c].st \in {"live", "exiting"}
InBack(w, c) == \E i \in DOMAIN w.back : w.back[i] = c
Sessions(w)  == {c \in Clients : Exists(w, c)}
OnInput(w)     == IF w.L THEN LOCAL1 ELSE IF w.A THEN ASYNC1 ELSE 0

(* ---------- destruction ---------------------------------------------------- *)
DropV(w) == [w EXCEPT !.v = FALSE, !.back = <<>>,
                      !.cl = [c \in Clients |-> IF w.cl[c].st = "back" THEN [w.cl[c] EXCEPT !.st = "refused", !.todo = <<>>] ELSE w.cl[c]]]
DropFront(w) == [w EXCEPT !.L = FALSE, !.A = FALSE, !.inp = <<>>, !.bc = <<>>]   \* the input is flushed by the application
DropCtx(w) == [w EXCEPT !.ctx = FALSE, !.ps = <<>>,
                        !.cl = [c \in Clients |-> IF Exists(w, c) THEN [w.cl[c] EXCEPT !.st = "dead", !.todo = <<>>] ELSE w.cl[c]]]
DropS(w) == LET x == [w EXCEPT !.sch = FALSE] IN IF w.kind = "ext" THEN x ELSE DropCtx(x)
DropC(w) == [w EXCEPT !.cli = FALSE]

(* ---------- what pending things do --------------------------------------------- *)
Effect(w, x) == CASE x.m = "v" -> DropV(w)
                  [] x.m = "l" -> IF w.L THEN DropFront(w) ELSE w
                  [] x.m = "a" -> IF w.A THEN DropFront(w) ELSE w
                  [] x.m = "t" -> [w EXCEPT !.ps = Append(@, [m |-> "p", k |-> x.k])]
                  [] x.m = "r" -> [w EXCEPT !.q = "gone"]
                  [] OTHER     -> w
CanFn(w)   == w.ctx /\ w.ps # <<>>
Fn(w)      == Effect([w EXCEPT !.ps = Tail(@)], Head(w.ps))
CanLine(w, c) == w.ctx /\ w.cl[c].st = "live" /\ w.cl[c].todo # <<>>
Popped(w, c) == [w EXCEPT !.cl[c].todo = Tail(@)]
Exit(w, c) == [w EXCEPT !.cl[c] = [@ EXCEPT !.st = "exiting", !.todo = <<>>]]
Line(w, c) == LET x == Head(w.cl[c].todo) IN IF x.m = "exit" THEN Exit(w, c) ELSE Effect(Popped(w, c), x)
CanTyped(w) == w.ctx /\ OnInput(w) # 0 /\ w.inp # <<>>
Typed(w)   == Effect([w EXCEPT !.inp = Tail(@)], Head(w.inp))
(* a client that went away before it was accepted may never be *)
CanAccept(w, i) == w.ctx /\ w.v /\ i \in 1 .. Len(w.back) /\ \A j \in 1 .. i - 1 : w.cl[w.back[j]].shut
Accept(w, i) == LET c == w.back[i] IN [w EXCEPT !.back = SubSeq(@, i + 1, Len(@)), !.cl =
                    [x \in Clients |-> IF x = c THEN [@[x] EXCEPT !.st = "live"] ELSE IF \E j \in 1 .. i - 1 : w.back[j] = x THEN [@[x] EXCEPT !.st = "dead"] ELSE @[x]]]
CanRelease(w, c) == w.ctx /\ (w.cl[c].st = "exiting" \/ (w.cl[c].st = "live" /\ w.cl[c].shut))
Release(w, c) == [w EXCEPT !.cl[c] = [@ EXCEPT !.st = "dead", !.todo = <<>>]]

(* ---------- what the application does --------------------------------------------- *)
Op(w, o) ==
    CASE o.o = "mkV" -> [w EXCEPT !.v = TRUE]
      [] o.o = "rmV" -> DropV(w)
      [] o.o = "mkL" -> [w EXCEPT !.L = TRUE]
      [] o.o = "mkA" -> [w EXCEPT !.A = TRUE]
      [] o.o \in {"rmL", "rmA"} -> DropFront(w)
      [] o.o = "rmS" -> DropS(w)
      [] o.o = "rmX" -> DropCtx(w)
      [] o.o = "rmC" -> DropC(w)
      [] o.o = "conn" -> [w EXCEPT !.cl[o.c] = [NoClient EXCEPT !.st = "back"], !.back = Append(@, o.c)]
      [] o.o = "send" -> IF w.cl[o.c].st \in {"back", "live"} THEN [w EXCEPT !.cl[o.c].todo = Append(@, [m |-> o.m, k |-> o.k])] ELSE w
      [] o.o = "close" -> [w EXCEPT !.cl[o.c].shut = TRUE, !.cl[o.c].bc = <<>>]
      [] o.o = "type" -> [w EXCEPT !.inp = Append(@, [m |-> o.m, k |-> o.k])]
      [] o.o = "post" -> [w EXCEPT !.ps = Append(@, [m |-> o.m, k |-> o.k])]
      [] o.o = "handle" -> IF w.q = "gone" THEN w ELSE [w EXCEPT !.q = IF o.m = "rm" THEN "gone" ELSE o.m]
      [] o.o = "bcast" -> [w EXCEPT !.bc = IF OnInput(w) = 0 THEN @ ELSE Append(@, o.k),
                                    !.cl = [c \in Clients |-> IF w.cl[c].st = "live" /\ ~w.cl[c].shut THEN [w.cl[c] EXCEPT !.bc = Append(@, o.k)] ELSE w.cl[c]]]
      [] OTHER -> w       \* poll, settle

(* the orders the interfaces permit: an object is destroyed before those it was made with;
   nothing is run when what it needs is gone *)
Legal(w, o) ==
    CASE o.o = "mkV" -> w.sch /\ w.cli /\ ~w.v /\ w.kind # "loop"
      [] o.o = "rmV" -> w.v
      [] o.o = "mkL" -> w.sch /\ w.cli /\ OnInput(w) = 0
      [] o.o = "mkA" -> w.sch /\ w.cli /\ OnInput(w) = 0 /\ w.kind # "loop"
      [] o.o = "rmL" -> w.L
      [] o.o = "rmA" -> w.A
      [] o.o = "rmS" -> w.sch /\ ~w.v /\ OnInput(w) = 0
      [] o.o = "rmX" -> w.kind = "ext" /\ ~w.sch /\ w.ctx
      [] o.o = "rmC" -> w.cli /\ ~w.v /\ OnInput(w) = 0 /\ Sessions(w) = {}
      [] o.o = "conn" -> w.v /\ w.cl[o.c].st = "none"
      [] o.o = "send" -> w.cl[o.c].st # "none" /\ ~w.cl[o.c].shut
      [] o.o = "close" -> w.cl[o.c].st # "none" /\ ~w.cl[o.c].shut
      [] o.o = "type" -> w.sch
      [] o.o = "post" -> w.sch
      [] o.o \in {"poll", "settle"} -> w.ctx /\ (w.sch \/ Sessions(w) = {})
      [] OTHER -> TRUE

(* nobody refers to what is gone *)
NoDangling(w) == /\ Sessions(w) # {} => w.ctx /\ w.cli
                 /\ (w.v \/ w.A) => w.ctx /\ w.sch /\ w.cli
                 /\ w.L => w.sch /\ w.cli
                 /\ w.ps # <<>> => w.ctx
                 /\ w.back # <<>> => w.v

(* what nothing hinders has happened *)
Settled(w) == /\ w.ctx => w.ps = <<>>
              /\ OnInput(w) # 0 => w.inp = <<>> /\ w.bc = <<>>
              /\ w.ctx /\ w.v => \A i \in DOMAIN w.back : w.cl[w.back[i]].shut
              /\ \A c \in Clients : LET x == w.cl[c] IN
                    /\ x.st = "live" /\ ~x.shut => x.todo = <<>> /\ x.bc = <<>>
                    /\ x.st \in {"exiting", "refused", "dead"} /\ ~x.shut => x.cls
AfterSettle(w) == LET x == [w EXCEPT !.cl = [c \in Clients |-> IF CanRelease(w, c) \/ (w.cl[c].st = "back" /\ w.cl[c].shut /\ w.ctx /\ w.v) THEN Release(w, c).cl[c] ELSE w.cl[c]]]
                  IN IF w.v /\ w.ctx THEN [x EXCEPT !.back = <<>>] ELSE x
=============================================================================
