------------------------------- MODULE Remote -------------------------------
(* A telnet server over a world of CliCore: clients connect, send bytes and
   disconnect.  A client is known by the id of its session, which is also the
   id of the session's stream.  The state is
     g = [w: the world, cl: client -> what the server knows about it and what
          its screen should show]
   A client record: tel, dec, ed as in CliTerminal;  base, pcol: the row the
   prompt is in and the column after the prompt;  pv: whether these are known;
   up: connected.
   An operation yields [g, ev, ans, req, keys]: the events (texts of stream c
   are what client c should receive, before encoding; "nl" marks an executed
   line, "list" a list of completions, "disc" the disconnection by the server:
   what is written later is lost), the options asked about, how many of them
   must be answered, and the keys decoded.                                    *)
EXTENDS CliOps, CliTerminal

RInit(h) == [w |-> InitWorld(h), cl |-> <<>>]

Printable(t) == \A i \in 1 .. Len(t) : t[i] \in 32 .. 126
PrintableLines(t) == \A i \in 1 .. Len(t) : t[i] \in 32 .. 126 \/ t[i] = 10

(* the texts of client c in ev that are delivered *)
RECURSIVE Before(_, _)
Before(ev, c) == IF ev = <<>> \/ (Head(ev).e = "disc" /\ Head(ev).s = c) THEN <<>>
                 ELSE <<Head(ev)>> \o Before(Tail(ev), c)
DiscAt(ev, c) == SelectInSeq(ev, LAMBDA x : x.e = "disc" /\ x.s = c)
Delivered(ev, c) == LET k == DiscAt(ev, c)
                    IN SelectSeq(IF k = 0 THEN ev ELSE Take(ev, k), LAMBDA x : x.e \in {"out", "any", "nl", "list"} /\ x.s = c)
DeliveredText(ev, c) == LET d == Delivered(ev, c)
                        IN Concat([i \in 1 .. Len(d) |-> IF d[i].e = "out" THEN d[i].b ELSE <<>>])
HasAny(ev, c) == \E i \in 1 .. Len(ev) : ev[i].e = "any" /\ ev[i].s = c

(* the prompt was printed after the text t, on a row that was empty *)
AtPrompt(cl, t, any) ==
    LET r == Screen(ScrInit, Encode(t))
    IN [cl EXCEPT !.base = r.row, !.pcol = r.col, !.pv = ~any /\ PrintableLines(t) /\ Printable(cl.ed.line)]
LastPart(t) == LET k == SelectLastInSeq(t, LAMBDA x : x = 10) IN Drop(t, k)

(* one key of client c *)
KeyApply(g, c, key) ==
    LET w  == g.w
        cl == g.cl[c]
        same == [g |-> g, ev |-> <<>>]
        line(t) == LET e == EdSet(t) IN [cl EXCEPT !.ed = e, !.pv = @ /\ Printable(t)]
    IN IF w.ses[c].exited THEN same
       ELSE CASE key.k = "enter" ->
                   LET r == Feed(w, c, cl.ed.line)
                       p == Prompt(r.w, c)
                       ev == r.ev \o p
                       t == DeliveredText(ev, c)
                       any == HasAny(ev, c)
                       \* only the last line of the text matters for the row of the prompt
                   IN [g |-> [w |-> r.w, cl |-> [g.cl EXCEPT ![c] = AtPrompt([@ EXCEPT !.ed = EdInit], LastPart(t), any \/ ~PrintableLines(t))]],
                       ev |-> <<[e |-> "nl", s |-> c]>> \o ev]
              [] key.k = "eof" -> LET r == Exit(w, c) IN [g |-> [g EXCEPT !.w = r.w], ev |-> r.ev]
              [] key.k = "up" -> LET r == HPrev(w.ses[c].hist, cl.ed.line)
                                 IN [g |-> [w |-> [w EXCEPT !.ses[c].hist = r.h], cl |-> [g.cl EXCEPT ![c] = line(r.line)]], ev |-> <<>>]
              [] key.k = "down" -> LET r == HNext(w.ses[c].hist)
                                   IN [g |-> [w |-> [w EXCEPT !.ses[c].hist = r.h], cl |-> [g.cl EXCEPT ![c] = line(r.line)]], ev |-> <<>>]
              [] key.k = "tab" ->
                   LET comps == Completions(w, c, cl.ed.line)
                       r == TabLine(cl.ed.line, comps)
                   IN IF r.same THEN same
                      ELSE IF ~r.list THEN [g |-> [g EXCEPT !.cl[c] = line(r.line)], ev |-> <<>>]
                      ELSE [g |-> [g EXCEPT !.cl[c] = AtPrompt([@ EXCEPT !.ed = EdSet(r.line)], PromptText(w, c), FALSE)],
                            ev |-> <<[e |-> "list", s |-> c, l |-> comps]>>]
              [] key.k = "clear" ->
                   [g |-> [g EXCEPT !.cl[c] = AtPrompt([@ EXCEPT !.ed = EdSet(@.line)], PromptText(w, c), FALSE)], ev |-> <<[e |-> "clear", s |-> c]>>]
              [] OTHER -> LET e == Edit(cl.ed, key) IN [g |-> [g EXCEPT !.cl[c] = [@ EXCEPT !.ed = e, !.pv = @ /\ Printable(e.line)]], ev |-> <<>>]

(* one byte from client c;  x: the operation so far *)
ByteApply(x, c, b) ==
    LET t == TelByte(x.g.cl[c].tel, b)
        g1 == [x.g EXCEPT !.cl[c].tel = t.t]
        x1 == [x EXCEPT !.g = g1, !.ans = @ \o t.ans, !.req = IF x.g.w.ses[c].exited THEN @ ELSE Len(x.ans \o t.ans)]
    IN IF t.data = <<>> THEN x1
       ELSE LET k == KeyByte(g1.cl[c].dec, t.data[1])
                g2 == [g1 EXCEPT !.cl[c].dec = k.d]
            IN IF k.key = <<>> THEN [x1 EXCEPT !.g = g2]
               ELSE LET r == KeyApply(g2, c, k.key[1])
                    IN [x1 EXCEPT !.g = r.g, !.ev = @ \o r.ev, !.keys = @ \o k.key]

Res(g, ev) == [g |-> g, ev |-> ev, ans |-> <<>>, req |-> 0, keys |-> <<>>]

(* the server forgets a client whose connection is closed *)
Drop1(g, c) == [w |-> Close(g.w, c), cl |-> [g.cl EXCEPT ![c] = [@ EXCEPT !.up = FALSE, !.pv = FALSE]]]
(* texts of others spoil what is known about the rows of a client *)
Spoil(g, ev, except) ==
    LET hit == {c \in DOMAIN g.cl : c # except /\ \E i \in 1 .. Len(ev) : ev[i].e \in {"out", "any"} /\ ev[i].s = c}
    IN IF hit = {} THEN g ELSE [g EXCEPT !.cl = [c \in DOMAIN @ |-> IF c \in hit THEN [@[c] EXCEPT !.pv = FALSE] ELSE @[c]]]

RConnect(hdr, g, c) ==
    LET w1 == OpenAs(g.w, c, c, hdr.hmax, [enter |-> Bool(hdr.senter), exit |-> Bool(hdr.sexit)], TRUE)
        e  == Enter(w1, c)
        ev == e.ev \o Prompt(e.w, c)
        cl == [tel |-> TelInit, dec |-> "none", ed |-> EdInit, base |-> <<>>, pcol |-> 0, pv |-> FALSE, up |-> TRUE]
    IN Res([w |-> e.w, cl |-> (c :> AtPrompt(cl, LastPart(DeliveredText(ev, c)), FALSE)) @@ g.cl], ev)

RSend(g, c, bytes) ==
    IF ~g.cl[c].up THEN Res(g, <<>>)
    ELSE LET x == FoldLeft(LAMBDA a, b : ByteApply(a, c, b), Res(g, <<>>), bytes)
             x1 == [x EXCEPT !.g = Spoil(@, x.ev, c)]
         IN IF x.g.w.ses[c].exited THEN [x1 EXCEPT !.g = Drop1(@, c)] ELSE x1

RApply(hdr, g, st) ==
    CASE st.op = "connect" -> RConnect(hdr, g, st.c)
      [] st.op = "send"    -> RSend(g, st.c, Concat(st.parts))
      [] st.op \in {"rclose", "abort"} -> \* disconnected by the client
            Res(IF g.cl[st.c].up THEN Drop1(g, st.c) ELSE g, <<>>)
      [] st.op = "flash" -> Res(g, <<>>)      \* clients that come and go without waiting for the server
      [] OTHER -> LET r == Apply(hdr, g.w, st)
                  IN Res(Spoil([g EXCEPT !.w = r.w], r.ev, 0), r.ev)

RInv(g) == /\ WorldInv(g.w)
           /\ \A c \in DOMAIN g.cl : EdInv(g.cl[c].ed) /\ (g.cl[c].up => ~g.w.ses[c].exited /\ c \in ToSet(g.w.reg))
=============================================================================
