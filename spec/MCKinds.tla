------------------------------- MODULE MCKinds -------------------------------
(* C26 on the specification: every sequence of lines (environment SCEN: header,
   lines, depth) given to a plain, an asynchronous, a remote and a file session
   over the same menu has the same effects, whatever the cuts.
   p: plain, a: asynchronous, r: remote session, each in a world of its own.    *)
EXTENDS Remote, Json, IOUtils

Scen  == JsonDeserialize(IOEnv.SCEN)
Lines == Scen.lines
VARIABLES p, a, r, pev, hist, same
vars == <<p, a, r, pev, hist, same>>

S == 1
Started == Enter(Open(InitWorld(Scen), S, S, 1, [enter |-> FALSE, exit |-> FALSE]), S)
StartedA == AsyncOpen(InitWorld(Scen), S, S)
StartedR == RConnect(Scen, RInit(Scen), S)
Typed(line) == line \o <<13, 0>>       \* no line has telnet or control bytes

(* what a line did, but for the text of the session itself *)
Effects1(ev) == SelectSeq(ev, LAMBDA x : x.e \notin {"nl", "disc"})
Texts(ev) == Concat([i \in 1 .. Len(ev) |-> IF ev[i].e = "out" THEN ev[i].b ELSE IF ev[i].e = "any" THEN <<-1>> \o ev[i].b ELSE <<>>])
Ctl(ev) == SelectSeq(Effects1(ev), LAMBDA x : x.e \notin {"out", "any"})
Agree(x, y) == Ctl(x) = Ctl(y) /\ Texts(x) = Texts(y)
Plain1(w, line) == LET f == Feed(w, S, line) IN [w |-> f.w, ev |-> f.ev \o Prompt(f.w, S)]

Init == /\ p = Started.w /\ a = StartedA.w /\ r = StartedR.g /\ hist = <<>>
        /\ pev = Started.ev \o Prompt(Started.w, S)
        /\ same = (Agree(Started.ev \o Prompt(Started.w, S), StartedA.ev) /\ Agree(StartedA.ev, StartedR.ev))
Give(i) == LET line == Lines[i]
               pn == Plain1(p, line)
               an == AsyncSend(a, S, Append(line, NL))
               rn == RSend(r, S, Typed(line))
               \* cut in two
               k  == Len(line) \div 2
               a1 == AsyncSend(a, S, Take(line, k))
               a2 == AsyncSend(a1.w, S, Append(Drop(line, k), NL))
               r1 == RSend(r, S, Take(line, k))
               r2 == RSend(r1.g, S, Typed(Drop(line, k)))
           IN /\ p' = pn.w /\ a' = an.w /\ r' = rn.g /\ hist' = Append(hist, i)
              /\ pev' = pev \o pn.ev
              /\ same' = (/\ Agree(pn.ev, an.ev) /\ Agree(pn.ev, rn.ev)
                          /\ Agree(a1.ev \o a2.ev, an.ev) /\ a2.w = an.w
                          /\ Agree(r1.ev \o r2.ev, rn.ev) /\ r2.g.w = rn.g.w)
Next == Len(hist) < Scen.depth /\ ~p.ses[S].exited /\ \E i \in 1 .. Len(Lines) : Give(i)
Spec == Init /\ [][Next]_vars

Emit == Scen.emit = 1 => PrintT("T " \o ToJson(hist'))

(* a file session over the same lines *)
File == FileRun(Open(InitWorld(Scen), S, S, 1, [enter |-> FALSE, exit |-> FALSE]), S,
                Concat([i \in 1 .. Len(hist) |-> Append(Lines[hist[i]], NL)]))
Same == same
Final == LET x == Exit(p, S) IN
         /\ Agree(pev \o x.ev, File.ev)
         /\ x.w.store = File.w.store
         /\ x.w.store = Exit(a, S).w.store
         /\ x.w.store = Exit(r.w, S).w.store
Position == p.ses[S].cur = a.ses[S].cur /\ p.ses[S].cur = r.w.ses[S].cur /\ p.ses[S].exited = r.w.ses[S].exited
=============================================================================
