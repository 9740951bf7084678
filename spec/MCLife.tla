------------------------------- MODULE MCLife -------------------------------
(* Explores what an application can do with its objects, with pending work
   at every stage.  Environment SCEN: [kind, ops, depth].                     *)
EXTENDS Life, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
Ops  == Scen.ops
VARIABLES w, hist
vars == <<w, hist>>
Init == w = LifeInit(Scen.kind) /\ hist = <<>>

(* one thing the scheduler or the context does *)
Sys(x) == (IF CanFn(x) THEN {Fn(x)} ELSE {}) \cup (IF CanTyped(x) THEN {Typed(x)} ELSE {})
          \cup {Line(x, c) : c \in {c \in Clients : CanLine(x, c)}} \cup {Release(x, c) : c \in {c \in Clients : CanRelease(x, c)}}
          \cup {Accept(x, i) : i \in {i \in DOMAIN x.back : CanAccept(x, i)}}
RECURSIVE All(_)
All(x) == LET n == Sys(x) IN IF n = {} THEN {x} ELSE UNION {All(y) : y \in n}
Tag(o) == [f \in DOMAIN o \cup {"k"} |-> IF f = "k" THEN 0 ELSE o[f]]
Forget(x) == [x EXCEPT !.bc = <<>>, !.cl = [c \in Clients |-> [x.cl[c] EXCEPT !.bc = <<>>]]]

Do(i) == /\ Legal(w, Ops[i]) /\ hist' = Append(hist, i)
         /\ LET x == Op(w, Tag(Ops[i])) IN
            w' \in CASE Ops[i].o = "poll"   -> {x} \cup Sys(x)
                     [] Ops[i].o = "settle" -> {AfterSettle(Forget(y)) : y \in All(x)}
                     [] OTHER -> {x}
Next == Len(hist) < Scen.depth /\ \E i \in 1 .. Len(Ops) : Do(i)
Spec == Init /\ [][Next]_vars
View == Forget(w)
Emit == PrintT("T " \o ToJson(hist'))

Safe == NoDangling(w)
(* what is gone stays gone, and nothing survives for it *)
Gone == [][/\ ~w.ctx => ~w'.ctx /\ w'.ps = <<>> /\ Sessions(w') = {}
           /\ ~w.sch => ~w'.sch /\ ~w'.v /\ OnInput(w') = 0
           /\ \A c \in Clients : /\ w.cl[c].st = "dead" => w'.cl[c].st = "dead"
                                 /\ w.cl[c].st = "refused" => w'.cl[c].st = "refused"
                                 /\ (w.cl[c].st = "live" /\ ~w.cl[c].shut /\ w'.ctx) => w'.cl[c].st # "dead" \/ \E i \in DOMAIN w.cl[c].todo : w.cl[c].todo[i].m = "exit"
           /\ LET o == Ops[Last(hist')].o IN
              /\ o \notin {"poll", "settle", "rmV"} => (w.v => w'.v)
              /\ o \notin {"poll", "settle", "rmL", "rmA"} => (OnInput(w) # 0 => OnInput(w') = OnInput(w))]_vars
=============================================================================
