------------------------------- MODULE Stream -------------------------------
(* A reader that receives the input x in chunks, keeps what is not consumed   *)
(* in a buffer and calls the parser until it asks for more input.  The state  *)
(* is [fed, used, mode]: bytes received, bytes consumed by delivered objects, *)
(* and what must happen next: "feed", "parse", "done" (after an error) or     *)
(* "reject" (no transition of the reader explains the event).                 *)
EXTENDS Accessors

StInit == [fed |-> 0, used |-> 0, mode |-> "feed"]
Reject == [fed |-> 0, used |-> 0, mode |-> "reject"]

\* what the parser does on the buffered bytes
Attempt(x, st, rules) ==
  LET buf == SubSeq(x, st.used + 1, st.fed) IN
  IF rules = "ber" THEN ParseBer(buf, 1, Len(buf), MaxRecursion)
  ELSE ParseDer(buf, 1, Len(buf), MaxRecursion)

\* the transitions
Feed(x, st, n) ==
  IF st.mode # "feed" \/ st.fed + n > Len(x) THEN Reject
  ELSE [fed |-> st.fed + n, used |-> st.used,
        mode |-> IF st.fed + n > st.used THEN "parse" ELSE "feed"]

Deliver(x, st, rules, n) ==
  IF st.mode # "parse" THEN Reject
  ELSE LET a == Attempt(x, st, rules) IN
       IF a.s # OkS \/ a.nx - 1 # n THEN Reject
       ELSE [fed |-> st.fed, used |-> st.used + n,
             mode |-> IF st.fed > st.used + n THEN "parse" ELSE "feed"]

Starve(x, st, rules) ==
  IF st.mode # "parse" \/ Attempt(x, st, rules).s # IncS THEN Reject
  ELSE [st EXCEPT !.mode = "feed"]

Abandon(x, st, rules) ==
  IF st.mode # "parse" \/ Attempt(x, st, rules).s \in {OkS, IncS} THEN Reject
  ELSE [st EXCEPT !.mode = "done"]

\* one recorded event
StStep(x, rules, st, ev) ==
  IF st.mode = "reject" THEN st
  ELSE CASE ev.e = "feed" -> Feed(x, st, ev.n)
         [] ev.e = "obj" -> IF st.mode = "parse" /\ Attempt(x, st, rules).s = OkS
                            THEN IF Attempt(x, st, rules).v = ev.v
                                 THEN Deliver(x, st, rules, ev.n) ELSE Reject
                            ELSE Reject
         [] ev.e = "more" -> Starve(x, st, rules)
         [] ev.e = "error" -> Abandon(x, st, rules)
         [] OTHER -> Reject

RECURSIVE StRun(_, _, _, _, _)
StRun(x, rules, st, evs, k) ==
  IF k > Len(evs) THEN st ELSE StRun(x, rules, StStep(x, rules, st, evs[k]), evs, k + 1)

\* lengths of the objects obtained when the whole input is there at once
RECURSIVE Whole(_, _, _)
Whole(x, i, rules) ==
  IF i > Len(x) THEN << >>
  ELSE LET a == IF rules = "ber" THEN ParseBer(x, i, Len(x), MaxRecursion)
                ELSE ParseDer(x, i, Len(x), MaxRecursion)
       IN IF a.s # OkS THEN << >> ELSE << a.nx - i >> \o Whole(x, a.nx, rules)

Delivered(evs) == [k \in 1..Len(SelectSeq(evs, LAMBDA ev : ev.e = "obj")) |->
                     SelectSeq(evs, LAMBDA ev : ev.e = "obj")[k].n]

=============================================================================
