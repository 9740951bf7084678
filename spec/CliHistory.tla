----------------------------- MODULE CliHistory -----------------------------
(* The command history of a session (C09, C10, C11) as pure operators.
   ents : entries, oldest first, [id, txt, mine]; mine = added by a command of
          this session (not loaded from the storage, not the line being typed)
   nxt  : id of the next entry
   brw  : browsing; then the last entry is the line that was being typed
   pos  : index in ents of the entry shown while browsing
   rec  : the latest command added an entry
   lost : the entry the latest insertion pushed out (at most one), to be taken
          back if that insertion is undone                                    *)
EXTENDS CliText

HNewSession(max) == [max |-> max, ents |-> <<>>, nxt |-> 0, brw |-> FALSE, pos |-> 0, rec |-> FALSE, lost |-> <<>>]

HInsert(h, txt, mine) ==
    LET e == Append(h.ents, [id |-> h.nxt, txt |-> txt, mine |-> mine])
    IN IF Len(e) > h.max
       THEN [h EXCEPT !.ents = Tail(e), !.nxt = @ + 1, !.lost = IF h.max > 0 THEN <<Head(e)>> ELSE <<>>]
       ELSE [h EXCEPT !.ents = e, !.nxt = @ + 1, !.lost = <<>>]

HUndo(h) ==   \* undo the latest insertion
    [h EXCEPT !.ents = h.lost \o (IF @ = <<>> THEN <<>> ELSE Front(@)), !.nxt = @ - 1, !.lost = <<>>]

HLoad(h, cmds) == FoldLeft(LAMBDA a, c : HInsert(a, c, FALSE), h, cmds)

HCommand(h, line) ==
    LET n == Len(h.ents)
        g == [h EXCEPT !.brw = FALSE, !.pos = 0, !.rec = TRUE]
    IN IF h.brw THEN
            IF n > 1 /\ h.ents[n - 1].txt = line
            THEN [HUndo(g) EXCEPT !.rec = FALSE]
            ELSE [g EXCEPT !.ents[n].txt = line, !.ents[n].mine = TRUE]
       ELSE IF n > 0 /\ h.ents[n].txt = line
            THEN [g EXCEPT !.rec = FALSE]
            ELSE HInsert(g, line, TRUE)

HForget(h) == IF h.rec THEN [HUndo(h) EXCEPT !.rec = FALSE] ELSE h

(* arrow up with the given line on screen: new history and line to show *)
HPrev(h, line) ==
    IF h.max = 0 THEN [h |-> h, line |-> line]
    ELSE LET g == IF h.brw THEN [h EXCEPT !.ents[h.pos].txt = line, !.pos = MaxOf(1, @ - 1)]
                  ELSE LET i == HInsert(h, line, FALSE)
                       IN [i EXCEPT !.brw = TRUE, !.pos = MaxOf(1, Len(i.ents) - 1)]
         IN [h |-> g, line |-> g.ents[g.pos].txt]

HNext(h) ==
    IF ~h.brw \/ h.pos = Len(h.ents) THEN [h |-> h, line |-> <<>>]
    ELSE [h |-> [h EXCEPT !.pos = @ + 1], line |-> h.ents[h.pos + 1].txt]

(* ids are looked up by their decimal text, so no id overflows *)
HFind(h, idText) == LET s == SelectSeq(h.ents, LAMBDA e : NatText(e.id) = idText)
                    IN IF s = <<>> THEN [ok |-> FALSE, txt |-> <<>>] ELSE [ok |-> TRUE, txt |-> s[1].txt]

(* what is appended to the storage at exit *)
HMine(h) == LET s == SelectSeq(h.ents, LAMBDA e : e.mine) IN [i \in 1 .. Len(s) |-> s[i].txt]

HShow(h) == <<10>> \o Concat([i \in 1 .. Len(h.ents) |-> NatText(h.ents[i].id) \o <<9>> \o h.ents[i].txt \o <<10>>]) \o <<10>>

(* invariants *)
HBounded(h) == Len(h.ents) <= h.max
HIdsConsecutive(h) == \A i \in 1 .. Len(h.ents) : h.ents[i].id = h.nxt - (Len(h.ents) - i) - 1
HBrowseOk(h) == h.brw => h.ents # <<>> /\ h.pos \in 1 .. Len(h.ents)
HInv(h) == HBounded(h) /\ HIdsConsecutive(h) /\ HBrowseOk(h) /\ h.nxt >= 0
=============================================================================
