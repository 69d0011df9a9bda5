--------------------------- MODULE DecoderMachine ---------------------------
(* The decoders (BER and DER) as a transition system: one element header per step, a     *)
(* stack of open elements, and two budgets (nesting of decoded elements, and   *)
(* nesting of indefinite lengths).  TLC checks that it always terminates, that *)
(* the stack stays within the recursion limit, that the input position only    *)
(* moves forward, and that its result is the one of the recursive operator     *)
(* ParseBer or ParseDer.                                                       *)
EXTENDS Encoder

CONSTANTS Alphabet, MaxLen, Depth, Rules

VARIABLES x,      \* the input
          pos,    \* next byte
          stk,    \* open elements, innermost last
          st,     \* "run", "ok" or "fail"
          res     \* the finished object

vars == <<x, pos, stk, st, res>>

\* an open element: mode "dec" (children become objects) or "skip" (contents are only delimited)
Frame(h, mode, hi, db, sb) ==
  [h |-> h, mode |-> mode, hi |-> hi, db |-> db, sb |-> sb, items |-> << >>]

Top == stk[Len(stk)]
Limit == IF stk = << >> THEN Len(x) ELSE Top.hi
Indefinite(f) == f.h.len = Indef
\* budgets of the next element
NextDb == IF stk = << >> THEN Depth ELSE Top.db - 1
NextSb == IF stk # << >> /\ Indefinite(Top) THEN Top.sb - 1 ELSE MaxRecursion
Decoding == stk = << >> \/ Top.mode = "dec"

Strings == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}

Init == /\ x \in Strings /\ pos = 1 /\ stk = << >> /\ st = "run" /\ res = << >>

Fail == st' = "fail" /\ UNCHANGED <<x, pos, stk, res>>

\* the element that just ended becomes an item of its parent, or the result
Finish(rest, o, nx) ==
  /\ pos' = nx
  /\ IF rest = << >> THEN /\ st' = "ok" /\ res' = o /\ stk' = << >>
     ELSE /\ stk' = [rest EXCEPT ![Len(rest)].items = Append(@, o)]
          /\ UNCHANGED <<st, res>>
  /\ UNCHANGED x

\* value of a complete element with contents octets lo..hi
Close(f, hi, nx) ==
  LET rest == SubSeq(stk, 1, Len(stk) - 1) IN
  IF f.mode = "dec"
  THEN Finish(rest, Obj(f.h, [k |-> KindOf(f.h.tn), n |-> << >>, d |-> << >>, o |-> -2, ch |-> f.items]), nx)
  ELSE IF rest # << >> /\ rest[Len(rest)].mode = "skip" THEN Finish(rest, << >>, nx)
  ELSE LET c == IF f.h.cls # Universal
                THEN Val("unknown", <<f.h.cls, f.h.con>>, SubSeq(x, f.h.lo, hi), Off(f.h.lo, hi))
                ELSE PrimContent(x, f.h.tn, f.h.len, f.h.con, f.h.lo, hi)
       IN IF c.s # OkS THEN Fail ELSE Finish(rest, Obj(f.h, c), nx)

\* a definite-length constructed element whose contents are exhausted
EndDefinite ==
  /\ st = "run" /\ stk # << >> /\ ~Indefinite(Top) /\ pos > Top.hi
  /\ Close(Top, Top.hi, pos)

\* end-of-contents of an indefinite-length element
EndIndefinite(h) == Close(Top, pos - 1, pos + 2)

Open(f) == /\ stk' = Append(stk, f) /\ pos' = f.h.lo /\ UNCHANGED <<x, st, res>>

Leaf(h, hi) ==
  IF ~Decoding THEN Finish(stk, << >>, hi + 1)
  ELSE LET c == IF h.cls # Universal
                THEN Val("unknown", <<h.cls, h.con>>, SubSeq(x, h.lo, hi), Off(h.lo, hi))
                ELSE PrimContent(x, h.tn, h.len, h.con, h.lo, hi)
       IN IF c.s # OkS THEN Fail ELSE Finish(stk, Obj(h, c), hi + 1)

\* what DER adds: short enough lengths, and the canonical form of primitive contents
Distinguished(h) ==
  \/ Rules = "ber"
  \/ /\ Len(h.lb) <= 4
     /\ h.cls = Universal =>
          IF h.len = Huge \/ h.lo + h.len - 1 > Limit THEN FALSE
          ELSE DerConstraint(x, h.tn, h.len, h.con, h.lo) = ""

ReadElement ==
  /\ st = "run" /\ (IF stk = << >> THEN TRUE ELSE Indefinite(Top) \/ pos <= Top.hi)
  /\ LET h == Hdr(x, pos, Limit, Rules) IN
     IF h.s # OkS THEN Fail
     ELSE IF ~Distinguished(h) THEN Fail
     ELSE IF NextSb = 0 THEN Fail
     ELSE IF stk # << >> /\ Indefinite(Top) /\ IsEoc(h)
     THEN IF h.lo - pos # 2 THEN Fail ELSE EndIndefinite(h)
     ELSE IF Decoding /\ NextDb = 0 THEN Fail
     ELSE LET group == Decoding /\ h.cls = Universal /\ h.tn \in {16, 17} IN
          IF h.len # Indef
          THEN IF h.len = Huge \/ h.lo + h.len - 1 > Limit THEN Fail
               ELSE IF group
               THEN IF h.con = 0 THEN Fail
                    ELSE Open(Frame(h, "dec", h.lo + h.len - 1, NextDb, NextSb))
               ELSE Leaf(h, h.lo + h.len - 1)
          ELSE Open(Frame(h, IF group THEN "dec" ELSE "skip", Limit, NextDb, NextSb))

Next == EndDefinite \/ ReadElement
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
TypeOK == /\ pos \in 1..(Len(x) + 1)
          /\ st \in {"run", "ok", "fail"}
          /\ \A k \in 1..Len(stk) : stk[k].hi <= Len(x) /\ stk[k].db >= 0 /\ stk[k].sb >= 1
\* the recursion limit
StackBound == /\ Len(SelectSeq(stk, LAMBDA f : f.mode = "dec")) <= Depth
              /\ Len(stk) <= Depth + MaxRecursion
\* elements are nested in the input as in the stack
Nested == \A k \in 1..(Len(stk) - 1) : stk[k].h.lo <= stk[k + 1].h.lo /\ stk[k + 1].hi <= stk[k].hi
Agrees == LET e == IF Rules = "ber" THEN ParseBer(x, 1, Len(x), Depth)
                   ELSE ParseDer(x, 1, Len(x), Depth) IN
          /\ st = "ok" => e.s = OkS /\ e.v = res /\ e.nx = pos
          /\ st = "fail" => e.s # OkS
\* every step consumes input or closes an element
Progress == [][\/ pos' > pos \/ Len(stk') < Len(stk) \/ st' = "fail"]_vars
Forward == [][pos' >= pos /\ x' = x]_vars
Terminates == <>(st # "run")
=============================================================================
