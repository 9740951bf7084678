----------------------------- MODULE TraceLocal -----------------------------
(* Validates traces recorded from local terminal sessions (harness/localdrv.cpp):
   what is typed goes, in order and once, to the session - one key after the
   other, as the keyboard reads them - or to the handler that is running.
   A trace is accepted if some moments of the reads, which cannot be seen,
   explain it.                                                                 *)
EXTENDS Remote, Matching, LocalKeys, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l,
          g,      \* the world of Remote, the session being client c
          c,      \* the session (0: none yet)
          alive,  \* it exists
          tty,    \* typed and not read
          eof,    \* nothing will be typed: 0 no, 1 end of the input, 2 the terminal is gone
          kb,     \* the keyboard: [dec: state of the decoder, done: end of input seen]
          keys,   \* read and not delivered yet
          stale,  \* keys of sessions that are gone: they have no effect
          at,     \* where the thread of the scheduler is
          exp,    \* what the function it runs still has to do
          scr     \* what the session shows: [ev: all that the function does, txt: what it wrote, s: the screen]
vars == <<tr, l, g, c, alive, tty, eof, kb, keys, stale, at, exp, scr>>
Prop == IOEnv.PROP
Hdr == Traces[tr]
Obs == Traces[tr].obs
world == <<g, c, alive>>
term  == <<tty, eof, kb>>

Control2(ev) == SelectSeq(ev, LAMBDA x : x.e \notin {"out", "any", "nl", "list", "clear", "disc"})
Watched == {"run", "act", "wrong", "exc", "escaped", "deadcapture"}

Init == /\ tr \in 1 .. Len(Traces) /\ l = 1 /\ g = RInit(Traces[tr]) /\ c = 0 /\ alive = FALSE
        /\ tty = <<>> /\ eof = 0 /\ kb = [dec |-> "none", done |-> TRUE] /\ keys = <<>> /\ stale = 0 /\ at = "idle" /\ exp = <<>>
        /\ scr = [ev |-> <<>>, txt |-> <<>>, s |-> ScrInit]

InHandler == at \in {"handler", "wants"}
CanRead == alive /\ ~InHandler /\ ~kb.done /\ (tty # <<>> \/ eof # 0)
Real(ks) == SelectSeq(ks, LAMBDA k : k.k # "ignored")

(* the keyboard reads a byte, or the end of the input *)
ReadOne ==
    /\ CanRead
    /\ IF tty # <<>>
       THEN LET r == LocalKey(kb.dec, Head(tty))
            IN tty' = Tail(tty) /\ kb' = [kb EXCEPT !.dec = r.d] /\ keys' = keys \o r.key
       ELSE tty' = tty /\ kb' = [kb EXCEPT !.done = TRUE] /\ keys' = keys \o (IF kb.dec = "none" THEN <<>> ELSE Key("ignored")) \o Key("eof")
    /\ UNCHANGED <<tr, l, world, eof, stale, at, exp, scr>>
(* only when it matters *)
Hidden == /\ l <= Len(Obs)
          /\ \/ Obs[l].e = "key" /\ Real(keys) = <<>>
             \/ Obs[l].e = "tty" /\ Obs[l].k = "start"
             \/ Obs[l].e \in {"stuck", "destroyed"}
          /\ ReadOne
(* a terminal that is gone may lose what was not read *)
Lose == /\ l <= Len(Obs) /\ eof = 2 /\ tty # <<>> /\ Obs[l].e \in {"key", "got", "stuck"} /\ tty' = <<>>
        /\ UNCHANGED <<tr, l, world, eof, kb, keys, stale, at, exp, scr>>

Cooked(e) == eof = 2 \/ e.same = 1
IsRaw(e)  == eof = 2 \/ e.raw = 1

LineEnd(t) == SelectInSeq(t, LAMBDA b : b = 10)

(* ---------- what the session writes (C16, C22) ------------------------------- *)
Plain(d) == [i \in 1 .. Len(d) |-> [any |-> d[i].e = "any", b |-> d[i].b]]
TxtOk ==
    LET d == SelectSeq(scr.ev, LAMBDA x : x.e \in {"out", "any", "nl", "list"} /\ x.s = c)
        t == IF Hdr.color = 1 THEN StripColors(scr.txt) ELSE scr.txt
        k == SelectInSeq(t, LAMBDA b : b = 10)
    IN IF d = <<>> \/ d[1].e = "list" THEN TRUE
       ELSE IF d[1].e = "nl" THEN k > 0 /\ (\A i \in 1 .. k - 1 : t[i] = 13) /\ MatchTxt(Plain(Tail(d)), Drop(t, k))
       ELSE MatchTxt(Plain(d), t)
Shown == Screen(scr.s, Encode(scr.txt))
ScrOk == alive /\ ~g.w.ses[c].exited /\ g.cl[c].pv => Shows(Shown, g.cl[c].base, g.cl[c].pcol, g.cl[c].ed.line, g.cl[c].ed.pos)
(* a function is over *)
Written == /\ Prop = "C16" => ScrOk
           /\ Prop = "C22" => TxtOk
           /\ scr' = [ev |-> <<>>, txt |-> <<>>, s |-> IF Prop = "C16" THEN Shown ELSE ScrInit]
Says(ev) == scr' = [scr EXCEPT !.ev = ev]

(* the first key that is not ignored, or one that is, is delivered *)
Deliver(j) ==
    LET key == keys[j]
        r == IF key.k = "ignored" THEN [g |-> g, ev |-> <<>>] ELSE KeyApply(g, c, key)
    IN g' = r.g /\ exp' = Control2(r.ev) /\ Says(r.ev) /\ keys' = Drop(keys, j) /\ stale' = 0

Observe ==
    /\ l <= Len(Obs)
    /\ LET e == Obs[l]
       IN CASE e.e = "out" -> /\ scr' = (IF e.s = c /\ Prop \in {"C16", "C22"} THEN [scr EXCEPT !.txt = @ \o e.b] ELSE scr)
                                 /\ (Prop = "C22" => at # "idle") /\ UNCHANGED <<world, term, keys, stale, at, exp>>
            [] e.e = "bcast" -> \* by the thread of the scheduler, outside of any handler
                 /\ at = "idle" /\ at' = "bcasting"
                 /\ LET r == Apply(Hdr, g.w, [op |-> "bcast", b |-> e.b, how |-> 0])
                    IN g' = Spoil([g EXCEPT !.w = r.w], r.ev, 0) /\ Says(r.ev)
                 /\ UNCHANGED <<c, alive, term, keys, stale, exp>>
            [] e.e = "bcasted" -> at = "bcasting" /\ Written /\ at' = "idle" /\ UNCHANGED <<world, term, keys, stale, exp>>
            [] e.e = "typed" -> tty' = tty \o e.b /\ UNCHANGED <<world, eof, kb, keys, stale, at, exp, scr>>
            [] e.e \in {"eof", "hup"} -> eof' = (IF e.e = "eof" THEN 1 ELSE 2) /\ UNCHANGED <<world, tty, kb, keys, stale, at, exp, scr>>
            [] e.e = "create" ->
                 /\ at = "idle" /\ ~alive
                 /\ LET r == RConnect([hmax |-> Hdr.hmax, senter |-> 0, sexit |-> 1], g, e.c)
                    IN g' = r.g /\ exp' = Control2(r.ev) /\ scr' = [ev |-> r.ev, txt |-> <<>>, s |-> ScrInit]
                 /\ c' = e.c /\ alive' = TRUE /\ kb' = [dec |-> "none", done |-> FALSE] /\ at' = "creating" /\ UNCHANGED <<tty, eof, keys, stale>>
            [] e.e = "created" -> at = "creating" /\ exp = <<>> /\ IsRaw(e) /\ Written /\ at' = "idle" /\ UNCHANGED <<world, term, keys, stale, exp>>
            [] e.e \in Watched -> /\ at \in {"creating", "function", "handler"} /\ exp # <<>> /\ MatchAll(Hdr.nodes, <<Head(exp)>>, <<e>>)
                                  /\ exp' = Tail(exp) /\ UNCHANGED <<world, term, keys, stale, at, scr>>
            [] e.e = "mode" -> at = "idle" /\ ~alive /\ UNCHANGED <<world, term, keys, stale, at, exp, scr>>
            [] e.e \in {"exec", "poll"} -> at = "idle" /\ at' = e.e /\ UNCHANGED <<world, term, keys, stale, exp, scr>>
            [] e.e = "key" -> /\ at \in {"exec", "poll"} /\ at' = "function"
                              /\ \/ stale > 0 /\ stale' = stale - 1 /\ UNCHANGED <<g, exp, keys, scr>>
                                 \/ \E j \in 1 .. Len(keys) : (\A i \in 1 .. j - 1 : keys[i].k = "ignored") /\ Deliver(j)
                              /\ UNCHANGED <<c, alive, term>>
            [] e.e = "done" -> /\ at = "function" /\ exp = <<>> /\ (alive /\ ~g.w.ses[c].exited => IsRaw(e)) /\ Written
                               /\ at' = "ran" /\ UNCHANGED <<world, term, keys, stale, exp>>
            [] e.e = "ret"  -> at \in {"ran", "poll"} /\ at' = "idle" /\ UNCHANGED <<world, term, keys, stale, exp, scr>>
            [] e.e = "tty"  -> /\ IF e.k = "start" THEN at = "function" /\ at' = "handler" ELSE at = "handler" /\ at' = "function"
                               /\ Cooked(e) /\ UNCHANGED <<world, term, keys, stale, exp, scr>>
            [] e.e = "wants" -> at = "handler" /\ at' = "wants" /\ UNCHANGED <<world, term, keys, stale, exp, scr>>
            [] e.e = "got"  -> /\ at = "wants" /\ at' = "handler"
                               /\ LET k == LineEnd(tty) IN
                                    IF k > 0 THEN e.b = Take(tty, k) /\ tty' = Drop(tty, k)
                                    ELSE eof # 0 /\ e.b = tty /\ tty' = <<>>
                               /\ UNCHANGED <<world, eof, kb, keys, stale, exp, scr>>
            [] e.e = "destroy" -> at = "idle" /\ alive /\ at' = "destroying" /\ UNCHANGED <<world, term, keys, stale, exp, scr>>
            [] e.e = "destroyed" -> /\ at = "destroying" /\ Cooked(e) /\ at' = "idle" /\ alive' = FALSE
                                    /\ stale' = stale + Len(keys) /\ keys' = <<>> /\ g' = Drop1(g, c)
                                    /\ UNCHANGED <<c, term, exp, scr>>
            [] e.e = "stuck" -> \* everybody waits: for somebody to type, or because there is nothing more to do
                 /\ ~CanRead
                 /\ CASE at = "exec"  -> Real(keys) = <<>>
                      [] at = "wants" -> LineEnd(tty) = 0 /\ eof = 0
                      [] OTHER        -> at = "idle"
                 /\ UNCHANGED <<world, term, keys, stale, at, exp, scr>>
            [] OTHER -> FALSE
    /\ l' = l + 1 /\ tr' = tr
Next == Observe \/ Hidden \/ Lose
Spec == Init /\ [][Next]_vars

Report == (l' = l + 1 /\ l' > Len(Obs)) => PrintT("ACCEPT " \o ToString(tr))
Track == /\ Report
         /\ (Len(Traces) <= 3 => PrintT("AT " \o ToString(tr) \o " " \o ToString(l')))
=============================================================================
