------------------------------- MODULE CliOps -------------------------------
(* The interface operations as named steps: a header describes the initial
   world and a step record [op, ...] the operation applied to it.           *)
EXTENDS CliCore

Bool(x) == x = 1

InitWorld(h) ==
    LET N == Len(h.nodes)
    IN [nodes |-> h.nodes,
        kids  |-> [n \in 1 .. N |-> h.kids[n]],
        par   |-> [n \in 1 .. N |-> LET p == {m \in 1 .. N : \E i \in 1 .. Len(h.kids[m]) : h.kids[m][i] = n}
                                    IN IF p = {} THEN 0 ELSE CHOOSE m \in p : TRUE],
        enab  |-> [n \in 1 .. N |-> TRUE],
        gone  |-> {}, ses |-> <<>>, reg |-> <<>>,
        store |-> h.store, smax |-> h.smax,
        cfg   |-> [wrong |-> Bool(h.cfg.wrong), exc |-> Bool(h.cfg.exc), genter |-> Bool(h.cfg.genter), gexit |-> Bool(h.cfg.gexit)]]

Ret(x) == <<[e |-> "ret", b |-> x]>>

(* the operation of a step: new world and expected events *)
Apply(hdr, v, st) ==
    CASE st.op = "open"   -> [w |-> Open(v, st.s, st.stream, st.hmax, [enter |-> Bool(st.aenter), exit |-> Bool(st.aexit)]), ev |-> <<>>]
      [] st.op = "close"  -> [w |-> Close(v, st.s), ev |-> <<>>]
      [] st.op = "enter"  -> Enter(v, st.s)
      [] st.op = "exit"   -> Exit(v, st.s)
      [] st.op = "feed"   -> Feed(v, st.s, st.b)
      [] st.op = "prompt" -> [w |-> v, ev |-> Prompt(v, st.s)]
      [] st.op = "help"   -> [w |-> v, ev |-> Out(v.ses[st.s].stream, HelpText(v, st.s))]
      [] st.op = "comp"   -> [w |-> v, ev |-> <<[e |-> "comp", l |-> Completions(v, st.s, st.b)]>>]
      [] st.op = "prev"   -> LET r == HPrev(v.ses[st.s].hist, st.b)
                             IN [w |-> [v EXCEPT !.ses[st.s].hist = r.h], ev |-> Ret(r.line)]
      [] st.op = "next"   -> LET r == HNext(v.ses[st.s].hist)
                             IN [w |-> [v EXCEPT !.ses[st.s].hist = r.h], ev |-> Ret(r.line)]
      [] st.op = "show"   -> [w |-> v, ev |-> Out(v.ses[st.s].stream, HShow(v.ses[st.s].hist))]
      [] st.op = "en"     -> [w |-> Enable(v, st.n, TRUE), ev |-> <<>>]
      [] st.op = "dis"    -> [w |-> Enable(v, st.n, FALSE), ev |-> <<>>]
      [] st.op = "rm"     -> [w |-> RemoveNode(v, st.n), ev |-> <<>>]
      [] st.op = "ins"    -> [w |-> InsertNode(v, st.m, st.n), ev |-> <<>>]
      [] st.op = "cur"    -> [w |-> [v EXCEPT !.ses[st.s].cur = st.n], ev |-> <<>>]
      [] st.op = "bcast"  -> [w |-> v, ev |-> Broadcast(v, st.b, st.how)]
      [] st.op = "file"   -> FileRun(v, st.s, st.b)
      [] st.op = "aopen"  -> AsyncOpen(v, st.s, st.stream)
      [] st.op = "asend"  -> AsyncSend(v, st.s, Concat(st.parts))
      [] st.op = "aexit"  -> \* from now on the session has an exit action of its own
            [w |-> [v EXCEPT !.ses[st.s].acts.exit = TRUE], ev |-> <<>>]
      [] st.op = "aeof"   -> [w |-> v, ev |-> <<>>]
      [] st.op = "dump"   -> [w |-> v, ev |-> <<[e |-> "store", l |-> v.store]>>]
      [] st.op = "clear"  -> [w |-> [v EXCEPT !.store = <<>>], ev |-> <<>>]
      [] st.op = "xstore" -> \* another process adds commands to the storage, perhaps after having read it
            [w |-> [v EXCEPT !.store = LastN(@ \o st.l, v.smax)], ev |-> IF st.seen = 1 THEN <<[e |-> "store", l |-> v.store]>> ELSE <<>>]
      [] st.op = "restart"-> \* a new process: everything but a persistent storage is gone
            [w |-> [InitWorld(hdr) EXCEPT !.store = IF st.keep = 1 THEN v.store ELSE <<>>], ev |-> <<>>]
      [] st.op = "badopen" -> \* a file session over streams in the given states (0 is good)
            [w |-> v, ev |-> <<[e |-> IF st.in = 0 /\ st.out = 0 THEN "accepted" ELSE "refused"]>>]
      [] st.op = "split"  -> [w |-> v, ev |-> <<[e |-> "toks", l |-> Split(st.b)]>>]
      [] st.op = "lcp"    -> [w |-> v, ev |-> Ret(CommonPrefix(st.l))]
=============================================================================
