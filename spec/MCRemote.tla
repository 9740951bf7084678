------------------------------ MODULE MCRemote ------------------------------
(* Bounded exhaustive exploration of Remote: from a scenario (environment SCEN,
   a json header with an alphabet of steps) every sequence of steps up to a
   depth.  Checks properties stated independently of the transitions and prints
   one stimulus per transition, to be replayed on a real server.              *)
EXTENDS Remote, Json, IOUtils

Scen  == JsonDeserialize(IOEnv.SCEN)
Ops   == Scen.ops
Depth == Scen.depth
Emit  == Scen.emit = 1

VARIABLES g, hist, x, zip
vars == <<g, hist, x, zip>>

RECURSIVE Legal(_, _)
Legal(t, b) == IF b = <<>> THEN TRUE ELSE IF TelLegal(t, Head(b)) THEN Legal(TelByte(t, Head(b)).t, Tail(b)) ELSE FALSE
Enabled(v, o) ==
    /\ o.op = "connect" => o.c \notin DOMAIN v.cl
    /\ o.op \in {"send", "rclose", "abort"} => o.c \in DOMAIN v.cl /\ v.cl[o.c].up
    /\ IF o.op = "send" THEN Legal(v.cl[o.c].tel, Concat(o.parts)) = TRUE ELSE TRUE
    /\ "s" \in DOMAIN o => IF o.op = "open" THEN o.s \notin ToSet(v.w.reg) ELSE o.s \in ToSet(v.w.reg)

(* the line editor once more: the text before the cursor and the text after it *)
ZipInit == [pre |-> <<>>, post |-> <<>>]
ZipKey(z, k) == CASE k.k = "char" -> [z EXCEPT !.pre = Append(@, k.c)]
               [] k.k = "left"  -> IF z.pre = <<>> THEN z ELSE [pre |-> Front(z.pre), post |-> <<LastOf(z.pre)>> \o z.post]
               [] k.k = "right" -> IF z.post = <<>> THEN z ELSE [pre |-> Append(z.pre, Head(z.post)), post |-> Tail(z.post)]
               [] k.k = "home"  -> [pre |-> <<>>, post |-> z.pre \o z.post]
               [] k.k = "end"   -> [pre |-> z.pre \o z.post, post |-> <<>>]
               [] k.k = "backspace" -> IF z.pre = <<>> THEN z ELSE [z EXCEPT !.pre = Front(@)]
               [] k.k = "delete" -> IF z.post = <<>> THEN z ELSE [z EXCEPT !.post = Tail(@)]
               [] k.k = "enter" -> ZipInit
               [] OTHER -> z
(* what replaces the line: the editor starts again from it *)
Replaces(k) == k.k \in {"up", "down", "tab", "clear"}
ZipOf(gg, c) == [pre |-> Take(gg.cl[c].ed.line, gg.cl[c].ed.pos), post |-> Drop(gg.cl[c].ed.line, gg.cl[c].ed.pos)]

Prefixed == FoldLeft(LAMBDA v, o : RApply(Scen, v, o).g, RInit(Scen), Scen.prefix)
Init == /\ g = Prefixed /\ hist = <<>> /\ x = Res(Prefixed, <<>>)
        /\ zip = [c \in DOMAIN Prefixed.cl |-> ZipOf(Prefixed, c)]

Step(i) == LET o == Ops[i]
           IN /\ Enabled(g, o)
              /\ LET r == RApply(Scen, g, o)
                 IN /\ g' = r.g /\ x' = r /\ hist' = Append(hist, i)
                    /\ zip' = [c \in DOMAIN r.g.cl |->
                                 IF "c" \notin DOMAIN o \/ o.c # c THEN zip[c]
                                 ELSE IF c \notin DOMAIN zip THEN ZipInit
                                 ELSE IF \E k \in 1 .. Len(r.keys) : Replaces(r.keys[k]) THEN ZipOf(r.g, c)
                                 ELSE FoldLeft(ZipKey, zip[c], r.keys)]
Next == Len(hist) < Depth /\ \E i \in 1 .. Len(Ops) : Step(i)
Spec == Init /\ [][Next]_vars

View == CASE Scen.nohist = 1 -> <<[g.w EXCEPT !.ses = [s \in DOMAIN @ |-> [@[s] EXCEPT !.hist = 0]], !.store = <<>>], [c \in DOMAIN g.cl |-> [g.cl[c] EXCEPT !.base = 0, !.pcol = 0, !.pv = 0]]>>
          [] Scen.nohist = 2 -> <<[c \in DOMAIN g.cl |-> [tel |-> g.cl[c].tel, dec |-> g.cl[c].dec, up |-> g.cl[c].up]]>>
          [] OTHER -> <<g.w, [c \in DOMAIN g.cl |-> [g.cl[c] EXCEPT !.base = 0, !.pcol = 0, !.pv = 0]]>>
(* a stimulus: the steps, and the bytes that complete a telnet command begun by client 1 *)
EmitTransition == Emit => PrintT("T " \o ToJson(hist')) /\ (Scen.closer = 1 /\ g'.cl[1].up => PrintT("C " \o ToJson([h |-> hist', c |-> TelCloser(g'.cl[1].tel)])))

(* ---------- properties --------------------------------------------------- *)
Inv == RInv(g)
LastOp == Ops[LastOf(hist')]
Actor == IF "c" \in DOMAIN LastOp THEN LastOp.c ELSE 0
Runs(e) == SelectSeq(e, LAMBDA y : y.e = "run")

(* C15: the editor is a text with a cursor in it *)
ZipOk == \A c \in DOMAIN g.cl : g.cl[c].up => g.cl[c].ed.line = zip[c].pre \o zip[c].post /\ g.cl[c].ed.pos = Len(zip[c].pre)
(* C15: an Enter executes at most the line before it; no other key executes anything *)
OnlyEnter == Actor # 0 /\ LastOp.op = "send" /\ ~(\E k \in 1 .. Len(x'.keys) : x'.keys[k].k = "enter") => Runs(x'.ev) = <<>>
(* C21: the other clients keep their line, decoder, negotiation and history *)
Independent == \A c \in DOMAIN g.cl : c # Actor =>
                 /\ g'.cl[c].ed = g.cl[c].ed /\ g'.cl[c].tel = g.cl[c].tel /\ g'.cl[c].dec = g.cl[c].dec /\ g'.cl[c].up = g.cl[c].up
                 /\ g'.w.ses[c].hist = g.w.ses[c].hist /\ g'.w.ses[c].exited = g.w.ses[c].exited
                 /\ Cur(g'.w, c) = Cur(g.w, c) \/ g.w.ses[c].cur \in g'.w.gone
(* C14: exited, disconnected and forgotten at once; never back *)
Gone == \A c \in DOMAIN g.cl : ~g.cl[c].up => ~g'.cl[c].up /\ c \notin ToSet(g'.w.reg)
NoExitWithoutReason == \A c \in DOMAIN g.cl : ~g.w.ses[c].exited /\ g'.w.ses[c].exited => c = Actor /\ LastOp.op = "send"
(* C08 *)
TabOk == Actor # 0 /\ LastOp.op = "send" /\ Len(x'.keys) = 1 /\ x'.keys[1].k = "tab" =>
            LET old == g.cl[Actor].ed  new == g'.cl[Actor].ed
                cs  == Completions(g.w, Actor, old.line)
            IN /\ Runs(x'.ev) = <<>> /\ g'.w = g.w
               /\ cs = {} => new = old
               /\ cs # {} => new.pos = Len(new.line)
               /\ Cardinality(cs) = 1 => new.line = (CHOOSE y \in cs : TRUE) \o <<32>>
               /\ Cardinality(cs) > 1 =>
                    LET one == CHOOSE y \in cs : TRUE
                        common == {k \in 0 .. Len(one) : \A y \in cs : StartsWith(y, Take(one, k))}
                        longest == Take(one, CHOOSE k \in common : \A j \in common : j <= k)
                    IN new.line = IF Len(longest) > Len(old.line) THEN longest ELSE old.line
(* C17: one answer per request; what is not data changes nothing *)
AnswersOk == x'.req <= Len(x'.ans) /\ (LastOp.op # "send" => x'.ans = <<>>)
TelnetSilent == LastOp.op = "send" /\ x'.keys = <<>> => g'.w = g.w /\ \A c \in DOMAIN g.cl : g'.cl[c].ed = g.cl[c].ed
(* C17: packet boundaries do not matter, by construction: a step is the concatenation of its parts *)
Parts == LastOp.op = "send" /\ Len(LastOp.parts) = 2 =>
            LET a == RSend(g, Actor, LastOp.parts[1])
                b == RSend(a.g, Actor, LastOp.parts[2])
            IN a.g.cl[Actor].up => b.g.cl[Actor].ed = g'.cl[Actor].ed /\ a.ev \o b.ev = x'.ev

Properties == OnlyEnter /\ Independent /\ Gone /\ NoExitWithoutReason /\ TabOk /\ AnswersOk /\ TelnetSilent /\ Parts
PropertiesHold == [][Properties]_vars
=============================================================================
