------------------------------ MODULE TraceCli ------------------------------
(* Validates traces recorded from the real library (harness/clidrv.cpp) against
   CliCore.  One line of the trace file is one behaviour: a header and steps
   [op, ..., obs].  Every step is one transition: the operation of CliCore is
   applied to the world and the events it yields are compared with the observed
   ones, as far as the property under check (environment PROP) observes them.  *)
EXTENDS Matching, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop   == IOEnv.PROP

VARIABLES tr, l, w

MainStream(v, st) == IF "s" \in DOMAIN st /\ st.s \in DOMAIN v.ses THEN v.ses[st.s].stream ELSE 0

Level(v, st) ==
    LET cls == IF st.op = "feed" THEN ClassOf(v, st.s, st.b) ELSE "op"
        f(ops, clss, c) == IF st.op \in ops \/ (st.op = "feed" /\ cls \in clss) THEN "full"
                           ELSE IF st.op \in c THEN "ctrl" ELSE "none"
    IN CASE Prop = "ALL" -> "full"
         [] Prop = "C01" -> f({"split"}, {}, {"feed"})
         [] Prop = "C02" -> f({}, {"none", "empty"}, {"feed", "file"})
         [] Prop = "C03" -> f({}, {"none"}, {"feed"})
         [] Prop = "C04" -> f({"prompt"}, {"menu"}, {})
         [] Prop = "C05" -> f({"help", "comp", "prompt", "en", "dis", "rm", "ins"}, {"help", "none"}, {"feed"})
         [] Prop = "C06" -> f({"help"}, {"help"}, {})
         [] Prop = "C07" -> f({"comp"}, {}, {})
         [] Prop = "C09" -> f({"show"}, {"history"}, {})
         [] Prop = "C10" -> f({"prev", "next", "show"}, {"history"}, {})
         [] Prop = "C11" -> f({"show"}, {"history", "bang"}, {"feed"})
         [] Prop = "C12" -> f({"dump", "show"}, {"history"}, {})
         [] Prop = "C13" -> f({"prompt"}, {"run", "none"}, {"feed"})
         [] Prop = "C14" -> f({"enter", "exit", "prompt", "dump"}, {"exit", "dead"}, {"feed", "file"})
         [] Prop = "C24" -> f({"file", "badopen"}, {}, {})
      [] Prop = "C22" -> f({"bcast", "open", "close"}, {}, {})
         [] OTHER -> "full"

(* ---------- behaviour ------------------------------------------------------ *)
Init == tr \in 1 .. Len(Traces) /\ l = 1 /\ w = InitWorld(Traces[tr])

Steps == Traces[tr].steps

Accept(st, r) == Match(Traces[tr].nodes, Level(w, st), MainStream(r.w, st), r.ev, st.obs)

Step == /\ l >= 1 /\ l <= Len(Steps)
        /\ LET st == Steps[l]
               r  == Apply(Traces[tr], w, st)
           IN IF Accept(st, r)
              THEN w' = r.w /\ l' = l + 1
              ELSE /\ PrintT("REJECT " \o ToJson([trace |-> tr, step |-> l, op |-> st, expected |-> r.ev]))
                   /\ l' = -l /\ w' = w
        /\ tr' = tr

Next == Step
Spec == Init /\ [][Next]_<<tr, l, w>>

(* the specification's own invariants along every recorded behaviour *)
Inv == WorldInv(w)
=============================================================================
