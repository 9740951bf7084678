------------------------------ MODULE KbdLock -------------------------------
(* How LinuxKeyboard keeps the promises of KbdAbs: a thread that waits for input
   with select on the terminal and a pipe, a flag that says whether the input is
   for the session behind a mutex and a condition variable, and the thread of
   the scheduler that runs handlers and destroys the session, step by step: one
   step from a point where a thread may lose the processor to the next.
   Threads: 1 the scheduler's, 2 the typist, 2 + n the n-th session's keyboard.
   Environment SCEN: [main, typist, faulty, emit].                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Scen == JsonDeserialize(IOEnv.SCEN)
Faulty == Scen.faulty
VARIABLES tty, eof, raw, alive, seen,
          enabled, stopping, owner, asleep, pipe,  \* of the keyboard
          kpc, hand,                               \* its thread: where it is, and what it has read and not posted
          q,                                       \* posted keys
          mi, mpc, line, cmd, exited,              \* the thread of the scheduler
          ti,                                      \* the typist
          wants, nses, hist
vars == <<tty, eof, raw, alive, seen, enabled, stopping, owner, asleep, pipe, kpc, hand, q, mi, mpc, line, cmd, exited, ti, wants, nses, hist>>
EOF == -1
S == 1  T == 2  K == 2 + nses

Init == /\ tty = <<>> /\ eof = FALSE /\ raw = FALSE /\ alive = FALSE /\ seen = FALSE
        /\ enabled = FALSE /\ stopping = FALSE /\ owner = 0 /\ asleep = FALSE /\ pipe = FALSE
        /\ kpc = "over" /\ hand = <<>> /\ q = <<>> /\ mi = 1 /\ mpc = "go" /\ line = <<>> /\ cmd = "" /\ exited = FALSE
        /\ ti = 1 /\ wants = 0 /\ nses = 0 /\ hist = <<>>

By(t, n) == hist' = IF Scen.emit = 1 THEN hist \o [i \in 1 .. n |-> t] ELSE hist

(* ---------- the keyboard's thread ------------------------------------------- *)
kbd == <<enabled, stopping, pipe>>
sch == <<mi, mpc, line, cmd, exited, wants, nses, ti, raw, alive, eof>>
Readable == tty # <<>> \/ eof
KStart == kpc = "start" /\ kpc' = "lock1" /\ UNCHANGED <<owner, asleep, tty, seen, hand, q>>
KLock1 == /\ kpc = "lock1" /\ ~asleep /\ owner = 0
          /\ IF enabled \/ (stopping /\ Faulty # "no-stopping") THEN owner' = 0 /\ asleep' = FALSE /\ kpc' = "unlocked1"
             ELSE owner' = K /\ asleep' = FALSE /\ kpc' = "sleep"
          /\ UNCHANGED <<tty, seen, hand, q>>
KSleep == kpc = "sleep" /\ owner' = 0 /\ asleep' = TRUE /\ kpc' = "lock1" /\ UNCHANGED <<tty, seen, hand, q>>
KUnlocked1 == kpc = "unlocked1" /\ kpc' = "select" /\ UNCHANGED <<owner, asleep, tty, seen, hand, q>>
KSelect == /\ kpc = "select" /\ (Readable \/ pipe)
           /\ kpc' = (IF pipe THEN "over" ELSE IF Faulty = "no-recheck" THEN "read" ELSE "lock2")
           /\ UNCHANGED <<owner, asleep, tty, seen, hand, q>>
KLock2 == /\ kpc = "lock2" /\ owner = 0
          /\ IF ~enabled THEN kpc' = "unlocked" /\ owner' = 0 ELSE owner' = K /\ kpc' = (IF Faulty = "read-blocks" THEN "read" ELSE "again")
          /\ UNCHANGED <<asleep, tty, seen, hand, q>>
(* the input may be gone since select: it was for a handler *)
KAgain == /\ kpc = "again" /\ IF Readable THEN owner' = owner /\ kpc' = "read" ELSE owner' = 0 /\ kpc' = "unlocked"
          /\ UNCHANGED <<asleep, tty, seen, hand, q>>
KUnlocked == kpc = "unlocked" /\ kpc' = "lock1" /\ UNCHANGED <<owner, asleep, tty, seen, hand, q>>
KRead == /\ kpc = "read" /\ Readable
         /\ IF tty # <<>> THEN hand' = <<Head(tty)>> /\ tty' = Tail(tty) /\ seen' = seen ELSE hand' = <<EOF>> /\ seen' = TRUE /\ tty' = tty
         /\ owner' = (IF owner = K THEN 0 ELSE owner) /\ kpc' = "post" /\ UNCHANGED <<asleep, q>>
KPost == /\ kpc = "post" /\ q' = Append(q, hand[1]) /\ hand' = <<>>
         /\ kpc' = (IF seen THEN "over" ELSE "lock1") /\ UNCHANGED <<owner, asleep, tty, seen>>
Turns == IF kpc = "post" THEN 4 ELSE 1
KStep == (KStart \/ KLock1 \/ KSleep \/ KUnlocked1 \/ KSelect \/ KLock2 \/ KAgain \/ KUnlocked \/ KRead \/ KPost) /\ UNCHANGED <<kbd, sch>> /\ By(K, Turns)

(* ---------- the typist -------------------------------------------------------- *)
TOp == Scen.typist[ti]
TStep == /\ ti <= Len(Scen.typist)
         /\ CASE TOp.o = "type" -> tty' = tty \o TOp.b /\ eof' = eof
              [] TOp.o = "eof" -> eof' = TRUE /\ tty' = tty
              [] TOp.o = "wants" -> (wants >= TOp.n \/ mi > Len(Scen.main)) /\ UNCHANGED <<tty, eof>>
         /\ ti' = ti + 1 /\ By(T, 1)
         /\ UNCHANGED <<raw, alive, seen, kbd, owner, asleep, kpc, hand, q, mi, mpc, line, cmd, exited, wants, nses>>

(* ---------- the scheduler's thread ---------------------------------------------- *)
MOp == Scen.main[mi]
kth == <<kpc, hand, seen>>
Go(pc) == mpc' = pc
SCreate == /\ mpc = "go" /\ mi <= Len(Scen.main) /\ MOp.o = "create"
           /\ alive' = TRUE /\ seen' = FALSE /\ exited' = FALSE /\ line' = <<>> /\ nses' = nses + 1 /\ enabled' = FALSE /\ stopping' = FALSE /\ pipe' = FALSE
           /\ kpc' = "start" /\ hand' = <<>> /\ owner' = 0 /\ asleep' = FALSE /\ Go("act")
           /\ UNCHANGED <<tty, eof, raw, q, mi, cmd, ti, wants>> /\ By(S, IF nses = 0 THEN 2 ELSE 1)
(* activation, after a handler or at the beginning *)
SAct == /\ mpc = "act" /\ owner = 0 /\ owner' = S /\ raw' = TRUE /\ enabled' = TRUE /\ Go("act2")
        /\ UNCHANGED <<tty, eof, alive, stopping, asleep, pipe, kth, q, mi, line, cmd, exited, ti, wants, nses>> /\ By(S, 1)
SAct2 == /\ mpc = "act2" /\ asleep' = FALSE /\ owner' = 0 /\ Go("next")
         /\ UNCHANGED <<tty, eof, raw, alive, kbd, kth, q, mi, line, cmd, exited, ti, wants, nses>> /\ By(S, 1)
SNext == /\ mpc = "next" /\ mi' = (IF MOp.o = "runexit" /\ ~exited THEN mi ELSE mi + 1) /\ Go("go")
         /\ UNCHANGED <<tty, eof, raw, alive, kbd, owner, asleep, kth, q, line, cmd, exited, ti, wants, nses>> /\ By(S, 1)
SDeliver == /\ mpc = "go" /\ mi <= Len(Scen.main) /\ MOp.o \in {"exec", "runexit", "poll"} /\ (q # <<>> \/ MOp.o = "poll") /\ alive
            /\ IF q = <<>> THEN UNCHANGED <<q, line, cmd, exited>> /\ Go("next")
               ELSE LET k == Head(q)
                    IN /\ q' = Tail(q) /\ exited' = (exited \/ k = EOF)
                       /\ IF k = EOF \/ exited THEN line' = <<>> /\ cmd' = cmd /\ Go("next")
                          ELSE IF k = 10 THEN /\ line' = <<>> /\ cmd' = (IF line = <<114>> THEN "r" ELSE IF line = <<112>> THEN "p" ELSE "")
                                              /\ Go("deact")
                          ELSE line' = Append(line, k) /\ cmd' = cmd /\ Go("next")
            /\ UNCHANGED <<tty, eof, raw, alive, kbd, owner, asleep, kth, mi, ti, wants, nses>> /\ By(S, IF mpc' = "next" THEN 1 ELSE 2)
SDeact == /\ mpc = "deact" /\ owner = 0 /\ raw' = FALSE /\ enabled' = FALSE /\ Go("deact2")
          /\ UNCHANGED <<tty, eof, alive, stopping, owner, asleep, pipe, kth, q, mi, line, cmd, exited, ti, wants, nses>> /\ By(S, 1)
SDeact2 == /\ mpc = "deact2" /\ Go(IF cmd = "" THEN "act" ELSE "handler")
           /\ UNCHANGED <<tty, eof, raw, alive, kbd, owner, asleep, kth, q, mi, line, cmd, exited, ti, wants, nses>> /\ By(S, 1)
SHandler == /\ mpc = "handler" /\ Go(IF cmd = "r" THEN "hread" ELSE "hend") /\ wants' = (IF cmd = "r" THEN wants + 1 ELSE wants)
            /\ UNCHANGED <<tty, eof, raw, alive, kbd, owner, asleep, kth, q, mi, line, cmd, exited, ti, nses>> /\ By(S, 1)
SRead == /\ mpc = "hread" /\ Readable
         /\ IF tty = <<>> THEN tty' = tty /\ Go("hend")
            ELSE tty' = Tail(tty) /\ Go(IF Head(tty) = 10 THEN "hend" ELSE "hread")
         /\ UNCHANGED <<eof, raw, alive, kbd, owner, asleep, kth, q, mi, line, cmd, exited, ti, wants, nses>> /\ By(S, 1)
SEnd == /\ mpc = "hend" /\ Go("act") /\ cmd' = ""
        /\ UNCHANGED <<tty, eof, raw, alive, kbd, owner, asleep, kth, q, mi, line, exited, ti, wants, nses>> /\ By(S, 1)
SDestroy == /\ mpc = "go" /\ mi <= Len(Scen.main) /\ MOp.o = "destroy" /\ owner = 0
            /\ owner' = S /\ raw' = FALSE /\ enabled' = FALSE /\ stopping' = TRUE /\ Go("destroy2")
            /\ UNCHANGED <<tty, eof, alive, asleep, pipe, kth, q, mi, line, cmd, exited, ti, wants, nses>> /\ By(S, 1)
SDestroy2 == /\ mpc = "destroy2" /\ asleep' = FALSE /\ owner' = 0 /\ Go("destroy3")
             /\ UNCHANGED <<tty, eof, raw, alive, kbd, kth, q, mi, line, cmd, exited, ti, wants, nses>> /\ By(S, 1)
SDestroy3 == /\ mpc = "destroy3" /\ pipe' = (Faulty # "no-pipe") /\ Go("join")
             /\ UNCHANGED <<tty, eof, raw, alive, enabled, stopping, owner, asleep, kth, q, mi, line, cmd, exited, ti, wants, nses>> /\ By(S, 1)
SJoin == /\ mpc = "join" /\ kpc = "over" /\ alive' = FALSE /\ Go("go") /\ mi' = mi + 1 /\ q' = <<>>
         /\ UNCHANGED <<tty, eof, raw, kbd, owner, asleep, kth, line, cmd, exited, ti, wants, nses>> /\ By(S, 1)
SStep == SCreate \/ SAct \/ SAct2 \/ SNext \/ SDeliver \/ SDeact \/ SDeact2 \/ SHandler \/ SRead \/ SEnd \/ SDestroy \/ SDestroy2 \/ SDestroy3 \/ SJoin

Next == KStep \/ TStep \/ SStep
Spec == Init /\ [][Next]_vars /\ WF_vars(KStep) /\ WF_vars(SStep)     \* the typist may never type

View == <<tty, eof, raw, alive, seen, enabled, stopping, owner, asleep, pipe, kpc, hand, q, mi, mpc, line, cmd, exited, ti, wants, nses>>
Emit == Scen.emit = 1 => PrintT("T " \o ToJson(hist'))

(* ---------- properties ------------------------------------------------------------ *)
InHandler == mpc \in {"handler", "hread", "hend"}
Abs == INSTANCE KbdAbs WITH keys <- q \o hand, hnd <- IF InHandler THEN cmd ELSE ""
Refines == [][Abs!Next]_<<tty, eof, alive, seen, q \o hand, line, IF InHandler THEN cmd ELSE "", raw, exited>>
(* the modes *)
Modes == /\ InHandler => ~raw
         /\ ~alive => ~raw
         /\ alive /\ mpc = "go" => raw
(* nothing is left undone when nothing can happen without the typist *)
NoStep == ~ENABLED KStep /\ ~ENABLED SStep
Served == NoStep => /\ alive /\ ~InHandler /\ ~seen => ~Readable
                    /\ kpc \in {"lock1", "select", "over"} /\ mpc \in {"go", "hread"} /\ (owner = 0 \/ kpc = "over")
                    /\ mpc = "go" /\ mi <= Len(Scen.main) => MOp.o \in {"exec", "runexit"} /\ q = <<>>
(* destroying ends, even if nobody types *)
Prompt == (mpc = "destroy2") ~> ~alive
=============================================================================
