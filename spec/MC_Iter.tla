------------------------------- MODULE MC_Iter ------------------------------
(* Iterators over an object: two borrowing ones and a consuming one, advanced *)
(* in any order; and the flags of the pretty printer under any history.       *)
EXTENDS Build
CONSTANTS MaxOps
VARIABLES o, a, b, i, got, flags, hist
vars == <<o, a, b, i, got, flags, hist>>

Leaf(n) == <<"int", <<n>>>>
Objects == {BuildObj(e) : e \in { <<"null">>, Leaf(1), <<"seq">>, <<"seq", Leaf(1), Leaf(2), <<"null">> >>,
                                  <<"set", <<"seq", Leaf(1)>>, Leaf(3)>> }}
Init == o \in Objects /\ a = 1 /\ b = 1 /\ i = 1 /\ got = [a |-> << >>, b |-> << >>, i |-> << >>]
        /\ flags = <<1, 0>> /\ hist = << >>
Nth(s, k) == IF k <= Len(s) THEN <<s[k]>> ELSE << >>
Budget == Len(hist) < MaxOps
NextA == Budget /\ got' = [got EXCEPT !.a = @ \o Nth(IterRef(o), a)] /\ a' = a + 1 /\ hist' = Append(hist, "a") /\ UNCHANGED <<o, b, i, flags>>
NextB == Budget /\ got' = [got EXCEPT !.b = @ \o Nth(IterRef(o), b)] /\ b' = b + 1 /\ hist' = Append(hist, "b") /\ UNCHANGED <<o, a, i, flags>>
SkipA == Budget /\ got' = [got EXCEPT !.a = @ \o Nth(IterRef(o), a) \o Nth(IterRef(o), a + 1)] /\ a' = a + 2 /\ hist' = Append(hist, "A") /\ UNCHANGED <<o, b, i, flags>>
RestI == Budget /\ got' = [got EXCEPT !.i = @ \o SubSeq(IterInto(o), i, Len(IterInto(o)))] /\ i' = Len(IterInto(o)) + 1 /\ hist' = Append(hist, "D") /\ UNCHANGED <<o, a, b, flags>>
NextI == Budget /\ got' = [got EXCEPT !.i = @ \o Nth(IterInto(o), i)] /\ i' = i + 1 /\ hist' = Append(hist, "i") /\ UNCHANGED <<o, a, b, flags>>
Flag == Budget /\ \E f \in {"r", "R", "h", "H"} :
          /\ flags' = FlagHist(<<f>>, 1, flags[1], flags[2])[1]
          /\ hist' = Append(hist, f) /\ UNCHANGED <<o, a, b, i, got>>
Next == NextA \/ SkipA \/ RestI \/ NextB \/ NextI \/ Flag
Spec == Init /\ [][Next]_vars
Pre(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
\* every iterator yields the elements in order, once each, whatever the others do
InOrder == /\ got.a = Pre(IterRef(o), a - 1) /\ got.b = Pre(IterRef(o), b - 1) /\ got.i = Pre(IterInto(o), i - 1)
LastOf(set, def) == LET h == SelectSeq(hist, LAMBDA c : c \in set) IN IF h = << >> THEN def ELSE h[Len(h)]
\* a flag is what the last operation on it made it
FlagsLast == flags = << IF LastOf({"r", "R"}, "r") = "r" THEN 1 ELSE 0, IF LastOf({"h", "H"}, "H") = "h" THEN 1 ELSE 0 >>
=============================================================================
