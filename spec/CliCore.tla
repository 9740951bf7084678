------------------------------ MODULE CliCore ------------------------------
(* Menus, sessions, command resolution, handlers, history storage, broadcast.

   A world w (one Cli library client program):
     nodes  : sequence of commands and menus, fixed for a behaviour.  Each is
              [kind: "menu" | "cmd" | "free", name, prompt, desc, pdesc, params,
               eff: effects of the handler]; node 1 is the root menu
     kids   : node -> sequence of nodes inserted in it (menus)
     par    : node -> menu it is inserted in, 0 if none
     enab   : node -> BOOLEAN
     gone   : nodes destroyed
     ses    : session -> session record
     reg    : sequence of live sessions in creation order (for broadcasts)
     store  : commands in the history storage,   smax : its size
     cfg    : [wrong, exc: BOOLEAN (custom handlers), genter, gexit: BOOLEAN]

   An operation returns [w, ev]: the new world and the sequence of observable
   events.  Text written to a stream is an event [e |-> "out", s, b]; adjacent
   texts of a stream are merged.  "any" events stand for text whose wording is
   not specified but that must contain the given text.                       *)
EXTENDS CliText, CliSplit, CliConv, CliHistory, TLC

DotDot == <<46, 46>>
THelp == <<104,101,108,112>>
TExit == <<101,120,105,116>>
THist == <<104,105,115,116,111,114,121>>
TBang == <<33>>
GlobalNames == <<THelp, TExit, THist, TBang>>

NL == 10

(* ---------- events ---------------------------------------------------- *)
Out(s, b) == IF b = <<>> THEN <<>> ELSE <<[e |-> "out", s |-> s, b |-> b]>>
AnyOut(s, b) == <<[e |-> "any", s |-> s, b |-> b]>>
Act(k, s) == <<[e |-> "act", k |-> k, s |-> s]>>

(* ---------- resolution (C02) ------------------------------------------ *)
NoMatch == [k |-> "none", n |-> 0, v |-> <<>>]

MatchCmd(w, n, args) ==
    LET d == w.nodes[n]
    IN IF ~w.enab[n] \/ d.name # args[1] THEN NoMatch
       ELSE IF d.kind = "free" THEN [k |-> "run", n |-> n, v |-> Tail(args)]
       ELSE IF Len(args) # Len(d.params) + 1 THEN NoMatch
       ELSE LET c == [i \in 1 .. Len(d.params) |-> Conv(d.params[i], args[i + 1])]
            IN IF \A i \in 1 .. Len(c) : c[i].ok
               THEN [k |-> "run", n |-> n, v |-> [i \in 1 .. Len(c) |-> c[i].val]]
               ELSE NoMatch

RECURSIVE MatchMenu(_, _, _, _), MatchNode(_, _, _), FirstMatch(_, _, _, _)
MatchNode(w, n, args) ==
    IF w.nodes[n].kind = "menu" THEN MatchMenu(w, n, {w.nodes[n].name}, args)
    ELSE MatchCmd(w, n, args)
FirstMatch(w, m, i, args) ==   \* among the commands of menu m from the i-th, then the parent
    IF i > Len(w.kids[m])
    THEN IF w.par[m] = 0 THEN NoMatch
         ELSE MatchMenu(w, w.par[m], {w.nodes[w.par[m]].name, DotDot}, args)
    ELSE LET r == MatchNode(w, w.kids[m][i], args)
         IN IF r.k # "none" THEN r ELSE FirstMatch(w, m, i + 1, args)
MatchMenu(w, m, names, args) ==
    IF ~w.enab[m] \/ args[1] \notin names THEN NoMatch
    ELSE IF Len(args) = 1 THEN [k |-> "menu", n |-> m, v |-> <<>>]
    ELSE FirstMatch(w, m, 1, Tail(args))

MatchGlobal(args) ==
    IF Len(args) = 1 /\ args[1] \in {THelp, TExit, THist}
    THEN [k |-> IF args[1] = THelp THEN "help" ELSE IF args[1] = TExit THEN "exit" ELSE "history", n |-> 0, v |-> <<>>]
    ELSE IF Len(args) = 2 /\ args[1] = TBang /\ Conv("uint", args[2]).ok
    THEN [k |-> "bang", n |-> 0, v |-> Conv("uint", args[2]).val]
    ELSE NoMatch

Resolve(w, cur, args) ==
    LET g == MatchGlobal(args)
    IN IF g.k # "none" THEN g
       ELSE IF w.enab[cur] THEN FirstMatch(w, cur, 1, args)
       ELSE NoMatch

(* ---------- structure: enable, disable, remove, insert (C05) ----------- *)
RECURSIVE Below(_, _)
Below(w, n) == {n} \cup UNION {Below(w, w.kids[n][i]) : i \in 1 .. Len(w.kids[n])}

Enable(w, n, on) == IF n \in w.gone \/ w.par[n] = 0 THEN w ELSE [w EXCEPT !.enab[n] = on]

RemoveNode(w, n) ==   \* destroys the node and everything below
    IF n \in w.gone \/ w.par[n] = 0 THEN w
    ELSE LET p == w.par[n]
         IN [w EXCEPT !.kids[p] = SelectSeq(@, LAMBDA k : k # n),
                      !.gone = @ \cup Below(w, n)]

InsertNode(w, m, n) ==   \* a node is inserted once
    IF w.par[n] # 0 \/ n \in w.gone \/ m \in w.gone THEN w
    ELSE [w EXCEPT !.kids[m] = Append(@, n), !.par[n] = m]

Cur(w, s) == IF w.ses[s].cur \in w.gone THEN 1 ELSE w.ses[s].cur   \* removed menu: back to the root

(* ---------- help (C06) -------------------------------------------------- *)
Dash == <<32, 45, 32>>
GlobalHelp ==
    <<32,45,32,104,101,108,112,10,9,84,104,105,115,32,104,101,108,112,32,109,101,115,115,97,103,101,10>> \o
    <<32,45,32,101,120,105,116,10,9,81,117,105,116,32,116,104,101,32,115,101,115,115,105,111,110,10>> \o
    <<32,45,32,104,105,115,116,111,114,121,10,9,83,104,111,119,32,116,104,101,32,104,105,115,116,111,114,121,10>> \o
    <<32,45,32,33,32,60,104,105,115,116,111,114,121,32,101,110,116,114,121,32,105,110,100,101,120,62,10,9>> \o
    <<69,120,101,99,32,97,32,99,111,109,109,97,110,100,32,98,121,32,105,110,100,101,120,32,105,110,32,116,104,101,32,104,105,115,116,111,114,121,10>>
HelpHeader == <<67,111,109,109,97,110,100,115,32,97,118,97,105,108,97,98,108,101,58,10>>

HelpOf(w, n) ==
    LET d == w.nodes[n]
        pars == IF d.kind = "menu" THEN <<>>
                ELSE IF d.pdesc # <<>> THEN Concat([i \in 1 .. Len(d.pdesc) |-> <<32, 60>> \o d.pdesc[i] \o <<62>>])
                ELSE IF d.kind = "free" THEN <<32>> \o TypeText("list")
                ELSE Concat([i \in 1 .. Len(d.params) |-> <<32>> \o TypeText(d.params[i])])
    IN IF ~w.enab[n] THEN <<>> ELSE Dash \o d.name \o pars \o <<10, 9>> \o d.desc \o <<10>>

MenuHelp(w, m) ==
    IF ~w.enab[m] THEN <<>>
    ELSE Concat([i \in 1 .. Len(w.kids[m]) |-> HelpOf(w, w.kids[m][i])])
         \o (IF w.par[m] = 0 THEN <<>> ELSE HelpOf(w, w.par[m]))

HelpText(w, s) == HelpHeader \o GlobalHelp \o MenuHelp(w, Cur(w, s))

(* ---------- completion (C07) -------------------------------------------- *)
RECURSIVE Compl(_, _, _), ComplParent(_, _, _), ComplInside(_, _, _, _)
NameCompl(w, n, t) == IF StartsWith(w.nodes[n].name, t) THEN {w.nodes[n].name} ELSE {}
ComplInside(w, m, t, prefix) ==
    LET rest == TrimLeft(Drop(t, Len(prefix)))
        sub  == UNION {Compl(w, w.kids[m][i], rest) : i \in 1 .. Len(w.kids[m])}
        up   == IF w.par[m] = 0 THEN {} ELSE ComplParent(w, w.par[m], rest)
    IN {prefix \o <<32>> \o c : c \in sub \cup up}
Compl(w, n, t) ==
    IF ~w.enab[n] THEN {}
    ELSE IF w.nodes[n].kind = "menu" /\ StartsWith(t, w.nodes[n].name)
    THEN ComplInside(w, n, t, w.nodes[n].name)
    ELSE NameCompl(w, n, t)
ComplParent(w, m, t) ==
    IF ~w.enab[m] THEN {}
    ELSE IF StartsWith(t, w.nodes[m].name) THEN ComplInside(w, m, t, w.nodes[m].name)
    ELSE IF StartsWith(t, DotDot) THEN ComplInside(w, m, t, DotDot)
    ELSE NameCompl(w, m, t)

Completions(w, s, line) ==
    LET t == TrimLeft(line)
        m == Cur(w, s)
    IN {g \in {GlobalNames[i] : i \in 1 .. 4} : StartsWith(g, t)} \cup
       (IF ~w.enab[m] THEN {}
        ELSE UNION {Compl(w, w.kids[m][i], t) : i \in 1 .. Len(w.kids[m])}
             \cup (IF w.par[m] = 0 THEN {} ELSE ComplParent(w, w.par[m], t)))

(* ---------- sessions ----------------------------------------------------- *)
PromptText(w, s) == w.nodes[Cur(w, s)].prompt \o <<62, 32>>
Prompt(w, s) == IF w.ses[s].exited THEN <<>> ELSE Out(w.ses[s].stream, PromptText(w, s))

(* acts: [enter, exit: BOOLEAN] own actions;  remote: exiting disconnects the client *)
OpenAs(w, s, stream, hmax, acts, remote) ==
    [w EXCEPT !.ses = (s :> [stream |-> stream, cur |-> 1, hist |-> HLoad(HNewSession(hmax), w.store), remote |-> remote,
                             exited |-> FALSE, acts |-> acts, pend |-> {}, in |-> <<>>, eof |-> FALSE, bad |-> FALSE]) @@ @,
              !.reg = Append(@, s)]
Open(w, s, stream, hmax, acts) == OpenAs(w, s, stream, hmax, acts, FALSE)
Close(w, s) == [w EXCEPT !.reg = SelectSeq(@, LAMBDA x : x # s)]

ActText(k, s) == <<60>> \o k \o NatText(s) \o <<62>>   \* what the actions of the harness print
KGE == <<71,69>>  KGX == <<71,88>>  KSE == <<83,69>>  KSX == <<83,88>>

DoAct(on, k, kt, s, w) == IF on THEN Act(k, s) \o Out(w.ses[s].stream, ActText(kt, s)) ELSE <<>>

Enter(w, s) == [w |-> w, ev |-> DoAct(w.cfg.genter, "genter", KGE, s, w) \o DoAct(w.ses[s].acts.enter, "enter", KSE, s, w)]

Exit(w, s) ==
    IF w.ses[s].exited THEN [w |-> w, ev |-> <<>>]
    ELSE [w |-> [w EXCEPT !.ses[s].exited = TRUE,
                          !.store = LastN(@ \o HMine(w.ses[s].hist), w.smax)],
          ev |-> DoAct(w.ses[s].acts.exit, "exit", KSX, s, w)
                 \o (IF w.ses[s].remote THEN <<[e |-> "disc", s |-> w.ses[s].stream]>> ELSE <<>>)
                 \o DoAct(w.cfg.gexit, "gexit", KGX, s, w)]

(* The writes a text t is made of: how = 0 one write, 1 and 2 character by
   character, 3 one write and a flush, 4 two halves.  Each write reaches every
   live session in turn, so a stream shared by k sessions gets it k times.    *)
Writes(t, how) == CASE how \in {1, 2} -> [i \in 1 .. Len(t) |-> <<t[i]>>]
                    [] how = 4 -> <<Take(t, Len(t) \div 2), Drop(t, Len(t) \div 2)>>
                    [] OTHER -> <<t>>
Broadcast(w, t, how) ==
    LET p == Writes(t, how)
    IN Concat([j \in 1 .. Len(p) |-> Concat([i \in 1 .. Len(w.reg) |-> Out(w.ses[w.reg[i]].stream, p[j])])])

WrongText(line) == <<119,114,111,110,103,32,99,111,109,109,97,110,100,58,32>> \o line \o <<10>>

Wrong(w, s, line) == IF w.cfg.wrong THEN <<[e |-> "wrong", s |-> w.ses[s].stream, c |-> line]>>
                     ELSE Out(w.ses[s].stream, WrongText(line))

(* x: "none" or the exception: [std: BOOLEAN, what: text | <<-1>> unspecified] *)
NoExc == [is |-> FALSE, std |-> FALSE, what |-> <<>>]
ExcEv(w, s, line, x) ==
    IF ~x.is THEN <<>>
    ELSE IF ~x.std THEN AnyOut(w.ses[s].stream, line)
    ELSE IF w.cfg.exc THEN <<[e |-> "exc", s |-> w.ses[s].stream, c |-> line, w |-> x.what]>>
    ELSE IF x.what = <<-1>> THEN AnyOut(w.ses[s].stream, <<>>)
    ELSE Out(w.ses[s].stream, x.what \o <<10>>)

HistErr == [is |-> TRUE, std |-> TRUE, what |-> <<-1>>]

(* One line (C02, C04, C11, C13, C14).  Effects of a handler are performed in
   order on the session that runs it; "throw" ends the handler.               *)
RECURSIVE Feed(_, _, _), Effects(_, _, _, _)
Effects(w, s, eff, i) ==
    IF i > Len(eff) THEN [w |-> w, ev |-> <<>>, x |-> NoExc]
    ELSE LET f == eff[i]
             st == w.ses[s].stream
             r == CASE f.t = "print"  -> [w |-> w, ev |-> Out(st, Repeat(f.b, IF "rep" \in DOMAIN f THEN f.rep ELSE 1)
                                                               \o (IF "how" \in DOMAIN f /\ f.how = 7 THEN <<NL>> ELSE <<>>))]
                    [] f.t = "en"     -> [w |-> Enable(w, f.n, TRUE), ev |-> <<>>]
                    [] f.t = "dis"    -> [w |-> Enable(w, f.n, FALSE), ev |-> <<>>]
                    [] f.t = "rm"     -> [w |-> RemoveNode(w, f.n), ev |-> <<>>]
                    [] f.t = "ins"    -> [w |-> InsertNode(w, f.m, f.n), ev |-> <<>>]
                    [] f.t = "feed"   -> Feed(w, s, f.b)
                    [] f.t = "bcast"  -> [w |-> w, ev |-> Broadcast(w, f.b, f.how)]
                    [] f.t = "exit"   -> Exit(w, s)
                    [] f.t = "eat"    -> \* the handler reads one line of the session's input
                        LET k == SelectInSeq(w.ses[s].in, LAMBDA c : c = NL)
                        IN [w |-> IF w.ses[s].eof THEN w
                                  ELSE IF k > 0 THEN [w EXCEPT !.ses[s].in = Drop(@, k)]
                                  ELSE [w EXCEPT !.ses[s].in = <<>>, !.ses[s].eof = TRUE],
                            ev |-> <<>>]
                    [] f.t = "break"  -> [w |-> [w EXCEPT !.ses[s].bad = TRUE], ev |-> <<>>]
                    [] OTHER          -> [w |-> w, ev |-> <<>>]
         IN IF f.t = "throw"
            THEN [w |-> w, ev |-> <<>>, x |-> [is |-> TRUE, std |-> f.std = 1, what |-> f.b]]
            ELSE LET q == Effects(r.w, s, eff, i + 1)
                 IN [w |-> q.w, ev |-> r.ev \o q.ev, x |-> q.x]

Feed(w, s, line) ==
    LET args == Split(line)
    IN IF w.ses[s].exited \/ args = <<>> THEN [w |-> w, ev |-> <<>>]
       ELSE
       LET w1 == [w EXCEPT !.ses[s].hist = HCommand(@, line)]
           r  == Resolve(w1, Cur(w1, s), args)
           st == w.ses[s].stream
       IN CASE r.k = "none"    -> [w |-> w1, ev |-> Wrong(w1, s, line)]
            [] r.k = "help"    -> [w |-> w1, ev |-> Out(st, HelpText(w1, s))]
            [] r.k = "history" -> [w |-> w1, ev |-> Out(st, HShow(w1.ses[s].hist))]
            [] r.k = "exit"    -> Exit(w1, s)
            [] r.k = "menu"    -> [w |-> [w1 EXCEPT !.ses[s].cur = r.n], ev |-> <<>>]
            [] r.k = "run"     ->
                 LET q == Effects(w1, s, w.nodes[r.n].eff, 1)
                 IN [w |-> q.w, ev |-> <<[e |-> "run", n |-> r.n, a |-> r.v, s |-> st]>> \o q.ev \o ExcEv(q.w, s, line, q.x)]
            [] r.k = "bang"    ->
                 LET w2 == [w1 EXCEPT !.ses[s].hist = HForget(@)]
                     f  == HFind(w2.ses[s].hist, r.v)
                 IN IF ~f.ok \/ r.v \in w2.ses[s].pend THEN [w |-> w2, ev |-> ExcEv(w2, s, line, HistErr)]
                    ELSE LET w3 == [w2 EXCEPT !.ses[s].pend = @ \cup {r.v}]
                             q  == Feed(w3, s, f.txt)
                         IN [w |-> [q.w EXCEPT !.ses[s].pend = w2.ses[s].pend], ev |-> q.ev]

(* what a line is about, for checks that compare only some lines *)
ClassOf(w, s, line) ==
    LET args == Split(line)
    IN IF w.ses[s].exited THEN "dead" ELSE IF args = <<>> THEN "empty"
       ELSE Resolve(w, Cur(w, s), args).k

(* ---------- file session (C24) ------------------------------------------- *)
RECURSIVE FileLoop(_, _)
FileLoop(w, s) ==
    IF w.ses[s].exited THEN [w |-> w, ev |-> <<>>]
    ELSE LET p == Prompt(w, s)
             k == SelectInSeq(w.ses[s].in, LAMBDA c : c = NL)
         IN IF w.ses[s].eof \/ w.ses[s].bad \/ k = 0
            THEN LET x == Exit(w, s) IN [w |-> x.w, ev |-> p \o x.ev]
            ELSE LET line == Take(w.ses[s].in, k - 1)
                     f == Feed([w EXCEPT !.ses[s].in = Drop(@, k)], s, line)
                     q == FileLoop(f.w, s)
                 IN [w |-> q.w, ev |-> p \o f.ev \o q.ev]
FileRun(w, s, input) ==
    LET w1 == [w EXCEPT !.ses[s].in = input]
        e  == Enter(w1, s)
        q  == FileLoop(e.w, s)
    IN [w |-> q.w, ev |-> e.ev \o q.ev]

(* ---------- asynchronous session ------------------------------------------ *)
RECURSIVE AsyncLoop(_, _)
AsyncLoop(w, s) ==
    LET k == SelectInSeq(w.ses[s].in, LAMBDA c : c = NL)
    IN IF k = 0 THEN [w |-> w, ev |-> <<>>]
       ELSE LET f == Feed([w EXCEPT !.ses[s].in = Drop(@, k)], s, Take(w.ses[s].in, k - 1))
                q == AsyncLoop(f.w, s)
            IN [w |-> q.w, ev |-> f.ev \o Prompt(f.w, s) \o q.ev]
AsyncSend(w, s, input) == AsyncLoop([w EXCEPT !.ses[s].in = @ \o input], s)
AsyncOpen(w, s, stream) ==
    LET w1 == Open(w, s, stream, 1, [enter |-> FALSE, exit |-> FALSE])
        e  == Enter(w1, s)
    IN [w |-> e.w, ev |-> e.ev \o Prompt(e.w, s)]

(* ---------- invariants of a world ---------------------------------------- *)
TreeOk(w) == \A m \in DOMAIN w.kids : m \notin w.gone =>
                \A i \in 1 .. Len(w.kids[m]) : w.par[w.kids[m][i]] = m /\ w.kids[m][i] \notin w.gone
WorldInv(w) == TreeOk(w) /\ Len(w.store) <= MaxOf(w.smax, Len(w.store))
               /\ \A s \in DOMAIN w.ses : HInv(w.ses[s].hist) /\ Cur(w, s) \notin w.gone
=============================================================================
