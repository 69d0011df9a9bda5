------------------------------ MODULE MC_Stream -----------------------------
(* The reader of Stream.tla with every way of cutting the input in chunks.    *)
EXTENDS Stream
CONSTANTS Elements,   \* what the input is made of
          MaxElems, MaxChunk
VARIABLES x, rules, st, out
vars == <<x, rules, st, out>>

Small == { <<2, 1, 5>>, <<5, 0>>, <<48, 3, 2, 1, 7>>, <<48, 128, 5, 0, 0, 0>>, <<159, 129, 0, 1, 9>>, <<4, 129, 1, 97>>,
           <<1, 1, 5>>, <<2, 255>>, <<48, 1, 2>>, <<0, 0>> }
Inputs == {FlattenB(f) : f \in UNION {[1..n -> Elements] : n \in 0..MaxElems}}

Init == /\ x \in Inputs /\ rules \in {"ber", "der"} /\ st = StInit /\ out = << >>

Receive == /\ st.mode = "feed"
           /\ \E n \in 0..MaxChunk : st.fed + n <= Len(x) /\ st' = Feed(x, st, n)
           /\ UNCHANGED <<x, rules, out>>
Parse == /\ st.mode = "parse"
         /\ LET a == Attempt(x, st, rules) IN
            IF a.s = OkS
            THEN st' = Deliver(x, st, rules, a.nx - 1) /\ out' = Append(out, a.nx - 1)
            ELSE /\ out' = out
                 /\ st' = IF a.s = IncS THEN Starve(x, st, rules) ELSE Abandon(x, st, rules)
         /\ UNCHANGED <<x, rules>>
Next == Receive \/ Parse
Spec == Init /\ [][Next]_vars /\ WF_vars(Parse) /\ SF_vars(Receive /\ st'.fed > st.fed)

TypeOK == st.mode \in {"feed", "parse", "done"} /\ st.used <= st.fed /\ st.fed <= Len(x)
W == Whole(x, 1, rules)
\* what has been delivered does not depend on the chunks
Independent == /\ Len(out) <= Len(W) /\ out = SubSeq(W, 1, Len(out))
               /\ (st.fed = Len(x) /\ st.mode = "feed") => out = W
\* deviation D2: a chunk that ends inside a multi-byte identifier makes the reader give up early
GivesUp == st.mode = "done" => (out = W \/ Attempt(x, st, rules) = Err("InvalidTag"))
\* every input is eventually read to its end or given up
Finishes == <>(st.mode = "done" \/ (st.fed = Len(x) /\ st.mode = "feed"))
=============================================================================
