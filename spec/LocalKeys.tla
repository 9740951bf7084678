----------------------------- MODULE LocalKeys ------------------------------
(* The keys of a local terminal: those of a remote client, but that Enter is LF. *)
EXTENDS CliTerminal

(* one byte: the new state of the decoder and the key it completes, maybe one that means nothing *)
LocalKey(d, b) ==
    IF d = "none" /\ b = 10 THEN [d |-> "none", key |-> Key("enter")]
    ELSE IF d = "none" /\ b = 13 THEN [d |-> "none", key |-> <<[k |-> "char", c |-> 13]>>]
    ELSE LET r == KeyByte(d, b)
         IN [d |-> r.d, key |-> IF r.d = "none" /\ r.key = <<>> THEN Key("ignored") ELSE r.key]
=============================================================================
