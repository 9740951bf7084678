------------------------------ MODULE Matching ------------------------------
(* Comparison of the events the specification yields with observed ones.     *)
EXTENDS CliOps

(* ---------- comparison ---------------------------------------------------- *)
IsText(x) == x.e \in {"out", "any"}

(* groups consecutive texts of stream s; other streams' texts are left out *)
Group(ev, s) ==
    FoldLeft(LAMBDA acc, x :
        IF IsText(x) THEN
            IF x.s # s THEN acc
            ELSE IF acc # <<>> /\ LastOf(acc).e = "txt"
                 THEN Append(Front(acc), [e |-> "txt", p |-> Append(LastOf(acc).p, [any |-> x.e = "any", b |-> x.b])])
                 ELSE Append(acc, [e |-> "txt", p |-> <<[any |-> x.e = "any", b |-> x.b]>>])
        ELSE Append(acc, x), <<>>, ev)

TextOf(ev, s) == Concat([i \in 1 .. Len(ev) |-> IF IsText(ev[i]) /\ ev[i].s = s THEN ev[i].b ELSE <<>>])

MatchTxt(p, b) ==
    LET anys == {i \in 1 .. Len(p) : p[i].any}
        cat(i, j) == Concat([k \in 1 .. j - i + 1 |-> p[i + k - 1].b])
    IN IF anys = {} THEN cat(1, Len(p)) = b
       ELSE LET f  == CHOOSE i \in anys : \A j \in anys : i <= j
                g  == CHOOSE i \in anys : \A j \in anys : i >= j
                pre == cat(1, f - 1)
                post == cat(g + 1, Len(p))
            IN /\ Len(pre) + Len(post) <= Len(b)
               /\ StartsWith(b, pre)
               /\ SubSeq(b, Len(b) - Len(post) + 1, Len(b)) = post
               /\ LET mid == SubSeq(b, Len(pre) + 1, Len(b) - Len(post))
                  IN \A i \in anys : TextContains(mid, p[i].b)

MatchEv(nodes, x, o) ==
    /\ x.e = o.e
    /\ CASE x.e = "txt"  -> MatchTxt(x.p, o.p[1].b)
         [] x.e = "run"  -> /\ x.n = o.n /\ x.s = o.s /\ Len(x.a) = Len(o.a)
                            /\ LET d == nodes[x.n]
                               IN \A i \in 1 .. Len(x.a) :
                                    IF d.kind = "free" THEN x.a[i] = o.a[i]
                                    ELSE SameValue(d.params[i], x.a[i], o.a[i])
         [] x.e = "exc"  -> x.c = o.c /\ x.s = o.s /\ (x.w = <<-1>> \/ x.w = o.w)
         [] x.e = "comp" -> StrictlySorted(o.l) /\ ToSet(o.l) = x.l
         [] OTHER        -> x = o

Joined(ev, s) == LET g == Group(ev, s)
                 IN [i \in 1 .. Len(g) |-> IF g[i].e # "txt" THEN g[i]
                        ELSE [e |-> "txt", p |-> <<[any |-> FALSE, b |-> Concat([k \in 1 .. Len(g[i].p) |-> g[i].p[k].b])]>>]]

NonText(ev) == SelectSeq(ev, LAMBDA x : ~IsText(x))

MatchAll(nodes, x, o) == Len(x) = Len(o) /\ \A i \in 1 .. Len(x) : MatchEv(nodes, x[i], o[i])

Streams(ev) == {ev[i].s : i \in {j \in 1 .. Len(ev) : IsText(ev[j])}}

(* level: "full": everything;  "ctrl": everything but texts;  "none" *)
Match(nodes, level, main, x, o) ==
    CASE level = "none" -> TRUE
      [] level = "ctrl" -> MatchAll(nodes, NonText(x), NonText(o))
      [] level = "full" -> /\ MatchAll(nodes, Group(x, main), Joined(o, main))
                           /\ \A s \in (Streams(x) \cup Streams(o)) \ {main} : TextOf(x, s) = TextOf(o, s)
=============================================================================
