---------------------------- MODULE TraceRemote ----------------------------
(* Validates traces recorded from the real telnet server (harness/netdrv.cpp)
   against Remote.  Every step is one transition; its observation is what the
   server did and what each client received.  scr is the screen of each client,
   interpreted from the bytes it received.                                    *)
EXTENDS Remote, Matching, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop   == IOEnv.PROP

VARIABLES tr, l, g, scr
vars == <<tr, l, g, scr>>
Hdr == Traces[tr]

(* what is compared: "ev" what runs, with which arguments, and the lines reported;  "ans" telnet
   answers;  "txt" the text a client gets for its own lines;  "oth" what the other clients get;
   "scr" the screens;  "end" disconnections and live sessions;  "list" the completions listed *)
Aspects == CASE Prop = "ALL" -> {"ev", "ans", "txt", "oth", "scr", "end", "list"}
             [] Prop = "C08" -> {"ev", "list"}
             [] Prop \in {"C10", "C15", "C18"} -> {"ev"}
             [] Prop = "C13" -> {"ev", "txt"}
             [] Prop = "C14" -> {"ev", "end"}
             [] Prop = "C16" -> {"scr"}
             [] Prop = "C17" -> {"ev", "ans"}
             [] Prop \in {"C21", "C27"} -> {"ev", "oth", "end"}
             [] Prop = "C22" -> {"oth"}
             [] Prop = "C25" -> {"txt", "oth"}
             [] Prop = "C26" -> {"ev", "txt"}
             [] OTHER -> {"ev", "ans", "txt", "oth", "scr", "end", "list"}

(* ---------- observations --------------------------------------------------- *)
RxRaw(obs, c) == Concat([i \in 1 .. Len(obs) |-> IF obs[i].e = "rx" /\ obs[i].c = c THEN obs[i].b ELSE <<>>])
Bytes(st) == IF st.op = "send" THEN Concat(st.parts) ELSE <<>>
(* a step that is about telnet commands: only then are the bytes the client gets stripped of them *)
Negotiates(st) == \/ st.op = "connect" \/ 255 \in ToSet(Bytes(st))
                  \/ st.op = "send" /\ st.c \in DOMAIN g.cl /\ g.cl[st.c].tel # TelInit
Colored(t) == IF Hdr.color = 1 THEN StripColors(t) ELSE t
Rx(st, c) == IF "c" \in DOMAIN st /\ st.c = c /\ Negotiates(st) THEN StripTelnet(RxRaw(st.obs, c)).data ELSE RxRaw(st.obs, c)

Control(ev) == SelectSeq(ev, LAMBDA x : x.e \notin {"out", "any", "nl", "list", "clear", "disc", "rx", "closed", "live"})
Own(st) == IF "c" \in DOMAIN st THEN st.c ELSE 0

EvOk(st, x) ==
    IF st.op = "abort" THEN \A i \in 1 .. Len(Control(st.obs)) :
                              LET o == Control(st.obs)[i] IN o.e \in {"run", "wrong", "exc"} /\ o.s = st.c
    ELSE IF st.op = "flash" THEN \A i \in DOMAIN Control(st.obs) : LET o == Control(st.obs)[i] IN o.e = "act" /\ o.k \in {"enter", "genter"}
    ELSE MatchAll(Hdr.nodes, Control(x.ev), Control(st.obs))

AnsOk(st, x) ==
    st.op # "send" \/ ~(st.c \in DOMAIN g.cl /\ g.cl[st.c].up) \/
    LET s == StripTelnet(RxRaw(st.obs, st.c))
        a == s.seqs
    IN /\ Negotiates(st) =>
            /\ s.whole
            /\ Len(a) >= x.req /\ Len(a) <= Len(x.ans)
            /\ \A i \in 1 .. Len(a) : Len(a[i]) = 3 /\ a[i][2] \in 251 .. 254 /\ a[i][3] = x.ans[i]
       /\ x.keys = <<>> => s.data = <<>>

(* pieces of text, encoded *)
Enc(p) == [i \in 1 .. Len(p) |-> [any |-> p[i].e = "any", b |-> Encode(p[i].b)]]
FindFrom(t, p, from) == \* the position after the first occurrence of p at or after from (0 based), or -1
    LET s == {i \in from .. Len(t) - Len(p) : SubSeq(t, i + 1, i + Len(p)) = p}
    IN IF s = {} THEN -1 ELSE Len(p) + CHOOSE i \in s : \A j \in s : i <= j
InOrder(t, ps) == FoldLeft(LAMBDA at, p : IF at < 0 THEN -1 ELSE FindFrom(t, p, at), 0, ps) >= 0

IsList(x) == x.e = "list"
(* the sequence of texts that must appear: consecutive texts are one *)
Needles(d) == FoldLeft(LAMBDA acc, x :
                 IF x.e = "nl" THEN acc \o <<<<10>>, <<>>>>
                 ELSE IF x.e = "any" THEN acc \o <<Encode(x.b), <<>>>>
                 ELSE IF x.e = "list" THEN acc \o <<<<>>>>
                 ELSE [acc EXCEPT ![Len(acc)] = @ \o Encode(x.b)], <<<<>>>>, d)

OwnTextOk(st, x, c) ==
    LET d == Delivered(x.ev, c)
        t == Colored(Rx(st, c))
    IN CASE st.op = "connect" -> MatchTxt(Enc(d), t)
         [] st.op = "send" /\ x.keys # <<>> /\ d # <<>> /\ x.keys[1].k = "enter" /\ Len(x.keys) = 1 ->
              LET k == SelectInSeq(t, LAMBDA b : b = 10)
                  rest == Drop(t, k)
              IN /\ k > 0 /\ \A i \in 1 .. k - 1 : t[i] = 13
                 /\ MatchTxt(Enc(Tail(d)), rest) \/ (rest # <<>> /\ rest[1] = 13 /\ MatchTxt(Enc(Tail(d)), Tail(rest)))
         [] st.op = "send" -> InOrder(t, Needles(d))
         [] st.op \in {"rclose", "abort"} -> TRUE
         [] OTHER -> MatchTxt(Enc(d), t)

OtherOk(st, x, c) ==   \* a client that did nothing
    LET d == Delivered(x.ev, c) IN MatchTxt(Enc(d), Colored(RxRaw(st.obs, c)))
PlainOk(st, x) == \* sessions of other kinds over streams of the harness
    \A s \in {n \in Streams(x.ev) \cup Streams(st.obs) : n >= 50} :
        LET d == SelectSeq(x.ev, LAMBDA e : IsText(e) /\ e.s = s)
        IN MatchTxt([i \in 1 .. Len(d) |-> [any |-> d[i].e = "any", b |-> d[i].b]], TextOf(st.obs, s))

ListOk(st, x) ==
    LET ls == SelectSeq(x.ev, IsList)
        t  == Colored(Rx(st, st.c))
        c  == x.g.cl[st.c]
        items == SetToSortSeq(ls[1].l, LAMBDA a, b : Less(a, b))
    IN st.op = "send" /\ Len(ls) = 1 /\ x.keys # <<>> /\ LastOf(x.keys).k = "tab" =>
            InOrder(t, items \o <<<<10>>, Encode(PromptText(x.g.w, st.c)) \o c.ed.line>>)

Disced(x) == {c \in DOMAIN x.g.cl : DiscAt(x.ev, c) > 0}
EndOk(st, x) ==
    /\ st.op \in {"rclose", "abort"} \/ {st.obs[i].c : i \in {j \in DOMAIN st.obs : st.obs[j].e = "closed"}} = Disced(x)
    /\ \A i \in DOMAIN st.obs : st.obs[i].e = "live" => st.obs[i].n = Cardinality({c \in DOMAIN x.g.cl : x.g.cl[c].up})

NewScr(st, x) == [c \in DOMAIN x.g.cl |->
                    IF st.op = "connect" /\ st.c = c THEN Screen(ScrInit, Rx(st, c))
                    ELSE LET t == Rx(st, c) IN IF t = <<>> THEN scr[c] ELSE Screen(scr[c], t)]
ScrOk(x, s) == \A c \in DOMAIN x.g.cl : LET k == x.g.cl[c] IN
                  k.up /\ k.pv => Shows(s[c], k.base, k.pcol, k.ed.line, k.ed.pos)

Failed(st, x, s) ==
    {a \in Aspects : ~CASE a = "ev"  -> EvOk(st, x)
                        [] a = "ans" -> AnsOk(st, x)
                        [] a = "txt" -> Own(st) = 0 \/ Own(st) \notin DOMAIN x.g.cl \/ OwnTextOk(st, x, Own(st))
                        [] a = "oth" -> PlainOk(st, x) /\ \A c \in DOMAIN x.g.cl : c = Own(st) \/ OtherOk(st, x, c)
                        [] a = "list" -> Own(st) = 0 \/ ListOk(st, x)
                        [] a = "end" -> EndOk(st, x)
                        [] a = "scr" -> ScrOk(x, s)}
    \cup (IF \E i \in DOMAIN st.obs : st.obs[i].e = "bogus" THEN {"bogus"} ELSE {})

(* ---------- behaviour -------------------------------------------------------- *)
Init == tr \in 1 .. Len(Traces) /\ l = 1 /\ g = RInit(Traces[tr]) /\ scr = <<>>

Steps == Traces[tr].steps
Step == /\ l >= 1 /\ l <= Len(Steps)
        /\ LET st == Steps[l]
               x  == RApply(Hdr, g, st)
               s  == IF "scr" \in Aspects THEN NewScr(st, x) ELSE <<>>
               f  == Failed(st, x, s)
           IN IF f = {}
              THEN g' = x.g /\ scr' = s /\ l' = l + 1
              ELSE /\ PrintT("REJECT " \o ToJson([trace |-> tr, step |-> l, op |-> st, failed |-> f, expected |-> x.ev, keys |-> x.keys,
                                                  client |-> IF Own(st) \in DOMAIN x.g.cl THEN x.g.cl[Own(st)] ELSE 0,
                                                  screen |-> IF Own(st) \in DOMAIN s THEN s[Own(st)] ELSE 0]))
                   /\ l' = -l /\ UNCHANGED <<g, scr>>
        /\ tr' = tr
Next == Step
Spec == Init /\ [][Next]_vars
Inv == RInv(g)
=============================================================================
