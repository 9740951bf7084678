------------------------------- MODULE MCCli -------------------------------
(* Bounded exhaustive exploration of CliCore: from the world of a scenario
   (environment SCEN, a json header with an alphabet of operations) every
   sequence of operations up to a depth.  Checks the properties of the design
   as invariants and action properties, stated independently of the operators
   that define the transitions, and prints one stimulus per transition, to be
   replayed on the real library.                                            *)
EXTENDS CliOps, Json, IOUtils

Scen  == JsonDeserialize(IOEnv.SCEN)
Ops   == Scen.ops
Depth == Scen.depth
Emit  == Scen.emit = 1

VARIABLES w, hist, ev
vars == <<w, hist, ev>>

Live(v, s) == s \in DOMAIN v.ses /\ s \in ToSet(v.reg)

Enabled(v, o) ==
    /\ "s" \in DOMAIN o => IF o.op = "open" THEN ~Live(v, o.s) ELSE Live(v, o.s)
    /\ o.op = "ins" => v.par[o.n] = 0 /\ o.n \notin v.gone /\ o.m \notin v.gone
    /\ o.op = "cur" => o.n \notin v.gone
    /\ o.op \in {"prev", "next"} => ~v.ses[o.s].exited

(* the operations before the alphabet is used *)
Prefixed == FoldLeft(LAMBDA v, o : Apply(Scen, v, o).w, InitWorld(Scen), Scen.prefix)
Init == w = Prefixed /\ hist = <<>> /\ ev = <<>>

Step(i) == LET o == Ops[i]
           IN /\ Enabled(w, o)
              /\ LET r == Apply(Scen, w, o)
                 IN w' = r.w /\ ev' = r.ev /\ hist' = Append(hist, i)

Next == Len(hist) < Depth /\ \E i \in 1 .. Len(Ops) : Step(i)
Spec == Init /\ [][Next]_vars

(* where the histories do not matter they do not distinguish states *)
View == IF Scen.nohist = 1
        THEN [w EXCEPT !.ses = [s \in DOMAIN @ |-> [@[s] EXCEPT !.hist = 0]], !.store = <<>>]
        ELSE w
EmitTransition == Emit => PrintT("T " \o ToJson(hist'))

(* ---------- the properties, over the bounded design ----------------------- *)
Inv == WorldInv(w)

Runs(e) == SelectSeq(e, LAMBDA x : x.e = "run")
Acts(e, k, s) == Len(SelectSeq(e, LAMBDA x : x.e = "act" /\ x.k = k /\ x.s = s))
LastOp == Ops[LastOf(hist')]
IsFeed == LastOp.op = "feed"
Class == ClassOf(w, LastOp.s, LastOp.b)
HasEffect(kinds) == \E n \in DOMAIN w.nodes : w.nodes[n].kind # "menu" /\ \E i \in 1 .. Len(w.nodes[n].eff) : w.nodes[n].eff[i].t \in kinds
NoNesting == ~HasEffect({"feed"})

(* a node and all the menus above it are enabled and attached *)
RECURSIVE Reachable(_, _)
Reachable(v, n) == n \notin v.gone /\ v.enab[n] /\ (n = 1 \/ (v.par[n] # 0 /\ Reachable(v, v.par[n])))

(* C02: exactly one handler, or the wrong command report, or a global command *)
OneHandler == IsFeed /\ NoNesting => LET n == Len(Runs(ev'))
                                     IN /\ n <= 1
                                        /\ Class = "run" => n = 1
                                        /\ Class \in {"none", "empty", "dead", "help", "history", "menu", "exit"} => n = 0
(* C02, C05: what runs is available, under its own name *)
RunsEnabled == IsFeed /\ NoNesting => \A i \in 1 .. Len(ev') : ev'[i].e = "run" =>
                  LET n == ev'[i].n IN n \notin w.gone /\ w.enab[n] /\ w.enab[w.par[n]]
(* C04: only a line that names a menu moves the session, to an enabled menu *)
Moves == IsFeed /\ LastOp.s \in DOMAIN w'.ses /\ NoNesting
            => LET s == LastOp.s
               IN /\ Cur(w', s) # Cur(w, s) =>
                        \/ Class \in {"menu", "bang"} /\ w.enab[Cur(w', s)]
                        \/ Cur(w, s) \in w'.gone /\ Cur(w', s) = 1
                  /\ Class = "menu" => w.nodes[Cur(w', s)].kind = "menu"
(* C05: what is gone never comes back; enabling undoes disabling *)
GoneForGood == LastOp.op # "restart" => w.gone \subseteq w'.gone
EnableRestores == LastOp.op = "en" => \A s \in DOMAIN w.ses :
                    LET d == Enable(Enable(w', LastOp.n, FALSE), LastOp.n, TRUE)
                    IN HelpText(d, s) = HelpText(w', s) /\ Completions(d, s, <<>>) = Completions(w', s, <<>>)
(* C07: nothing not available is offered; every name offered extends the text *)
Offers == \A s \in DOMAIN w'.ses : \A c \in Completions(w', s, <<>>) :
             \/ c \in ToSet(GlobalNames)
             \/ \E n \in DOMAIN w'.nodes : n \notin w'.gone /\ w'.enab[n] /\ w'.nodes[n].name = c
                   /\ (w'.par[n] = Cur(w', s) \/ n = w'.par[Cur(w', s)])
(* C09 *)
Newest == IsFeed /\ ~w.ses[LastOp.s].exited /\ NoNesting /\ Class \notin {"empty", "dead", "bang"} =>
            LET h == w'.ses[LastOp.s].hist
            IN h.max > 0 => LastOf(h.ents).txt = LastOp.b /\ ~h.brw
SurvivorsKeepIds == IsFeed => LET a == w.ses[LastOp.s].hist  b == w'.ses[LastOp.s].hist
                   IN a.brw \/ \A i \in 1 .. Len(a.ents) : \A j \in 1 .. Len(b.ents) :
                        a.ents[i].id = b.ents[j].id => a.ents[i].txt = b.ents[j].txt
Suffix == IsFeed /\ NoNesting /\ Class # "bang" /\ ~w.ses[LastOp.s].hist.brw =>
            LET a == w.ses[LastOp.s].hist.ents  b == w'.ses[LastOp.s].hist.ents
            IN b = a \/ b = <<>> \/ Front(b) = a \/ (a # <<>> /\ Front(b) = Tail(a))
(* C11: a '!' line leaves no trace of itself *)
NoBangTrace == IsFeed /\ Class = "bang" /\ ~w.ses[LastOp.s].hist.brw =>
                \A i \in 1 .. Len(w'.ses[LastOp.s].hist.ents) :
                    w'.ses[LastOp.s].hist.ents[i].txt = LastOp.b =>
                        \E j \in 1 .. Len(w.ses[LastOp.s].hist.ents) : w.ses[LastOp.s].hist.ents[j].txt = LastOp.b
BangIsTyping == IsFeed /\ Class = "bang" /\ ~w.ses[LastOp.s].hist.brw /\ ~w.ses[LastOp.s].exited =>
                LET id == Conv("uint", Split(LastOp.b)[2]).val
                    f  == HFind(w.ses[LastOp.s].hist, id)
                IN /\ ~f.ok => w' = w \/ w'.ses[LastOp.s].hist.ents = w.ses[LastOp.s].hist.ents
                   /\ f.ok /\ ClassOf(w, LastOp.s, f.txt) # "bang" =>
                        LET t == Feed(w, LastOp.s, f.txt) IN t.ev = ev' /\ t.w.ses[LastOp.s].hist.ents = w'.ses[LastOp.s].hist.ents
(* C12 *)
StoreGrowsOnlyAtExit == LastOp.op \notin {"clear", "restart", "file", "xstore"} /\ w'.store # w.store =>
                          /\ \E s \in DOMAIN w.ses : ~w.ses[s].exited /\ w'.ses[s].exited
                          /\ Len(w'.store) <= MaxOf(w.smax, Len(w.store))
Preload == LastOp.op = "open" => LET h == w'.ses[LastOp.s].hist
                                 IN [i \in 1 .. Len(h.ents) |-> h.ents[i].txt] = LastN(w.store, h.max) /\ HMine(h) = <<>>
(* C13, C14 *)
Throws == IsFeed /\ NoNesting => Len(SelectSeq(ev', LAMBDA x : x.e = "exc")) <= 1
DeadIsDead == \A s \in DOMAIN w.ses : s \in DOMAIN w'.ses /\ LastOp.op \notin {"open", "restart"} =>
                (w.ses[s].exited => w'.ses[s].exited)
NothingAfterExit == "s" \in DOMAIN LastOp /\ LastOp.op \in {"feed", "exit", "prompt"} /\ w.ses[LastOp.s].exited => ev' = <<>>
ExitOnce == \A s \in DOMAIN w.ses : s \in DOMAIN w'.ses /\ LastOp.op \notin {"open", "restart"} =>
                LET now == ~w.ses[s].exited /\ w'.ses[s].exited
                IN /\ Acts(ev', "exit", s)  = IF now /\ w.ses[s].acts.exit THEN 1 ELSE 0
                   /\ Acts(ev', "gexit", s) = IF now /\ w.cfg.gexit THEN 1 ELSE 0
(* C22 *)
Reach == LastOp.op = "bcast" => \A i \in DOMAIN w.reg :
            LET st == w.ses[w.reg[i]].stream
                n  == Cardinality({j \in DOMAIN w.reg : w.ses[w.reg[j]].stream = st})
                out == SelectSeq(ev', LAMBDA x : x.s = st)
            IN Len(out) = n /\ \A j \in 1 .. n : out[j].b = LastOp.b

(* C24 *)
FileEnds == LastOp.op = "file" =>
              /\ w'.ses[LastOp.s].exited
              /\ Len(SelectSeq(ev', LAMBDA x : x.e = "act" /\ x.k = "exit")) <= 1
              /\ LET lines == Cardinality({i \in DOMAIN LastOp.b : LastOp.b[i] = NL})
                 IN Len(Runs(ev')) <= lines

Properties == /\ FileEnds /\ OneHandler /\ RunsEnabled /\ Moves /\ GoneForGood /\ EnableRestores /\ Offers
              /\ Newest /\ SurvivorsKeepIds /\ Suffix /\ NoBangTrace /\ BangIsTyping
              /\ StoreGrowsOnlyAtExit /\ Preload /\ Throws /\ DeadIsDead /\ NothingAfterExit /\ ExitOnce /\ Reach
PropertiesHold == [][Properties]_vars
=============================================================================
