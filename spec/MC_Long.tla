------------------------------ MODULE MC_Long ------------------------------
(* Elements around a run of copies, one header after the other, with trailing *)
(* octets added or missing: what is said about the long input does not depend *)
(* on how many copies the specification looks at, and is what it says about   *)
(* the input written out.                                                     *)
EXTENDS Long
CONSTANTS Units, Counts, Fewer, MaxDepth

VARIABLES rec, size, depth

AllUnits == {<<5, 0>>, <<48, 0>>, <<2, 1, 5>>, <<97>>, <<48, 128, 0, 0>>, <<195, 169>>, <<1, 1, 7>>}
FewUnits == {<<5, 0>>, <<97>>, <<48, 128, 0, 0>>}
LExprs == { <<"any">>, <<"opt", <<"any">>>>, <<"seqof", <<"any">>>>, <<"setof", <<"any">>>>, <<"seqof", <<"t", 5>>>>, <<"seqofv", <<"u32">>>>,
            <<"slice", 16>>, <<"t", 4>>, <<"expl", 2, <<"any">>>>, <<"impl", 2, 4>>, <<"impl", 2, 16>>, <<"seqdef", <<"any">>>>,
            <<"explopt", 2, <<"seqof", <<"any">>>>>> }
Heads == { <<4>>, <<48>>, <<49>>, <<162>>, <<130>>, <<191, 31>> }

Rec(pre, n, u, suf, e, ru) == [op |-> "long", rules |-> ru, ex |-> e, n |-> n, unit |-> u, suf |-> suf, x |-> pre]
Init == \E u \in Units, n \in Counts, suf \in {<< >>, <<5, 0>>} :
          /\ rec = Rec(<< >>, n, u, suf, <<"any">>, "ber") /\ size = n * Len(u) + Len(suf) /\ depth = 0
LenOct(len, w) == IF w = 0 THEN <<128>> ELSE IF w = 1 THEN <<len>> ELSE <<127 + w>> \o PadL(NatBytes(len), w - 1, 0)
Widths(h, len) == (IF len < 128 THEN {1} ELSE {}) \cup {3} \cup (IF (h[1] \div 32) % 2 = 1 THEN {0} ELSE {})
\* a header in front; sometimes something after
Next == /\ depth < MaxDepth
        /\ \E h \in Heads, after \in (IF depth = 0 THEN {<< >>} ELSE {<< >>, <<2, 1, 42>>}), w \in {0, 1, 3} :
             LET s == rec.suf \o after len == size + Len(after) IN
             /\ w \in Widths(h, len)
             /\ rec' = [rec EXCEPT !.x = h \o LenOct(len, w) \o @, !.suf = IF w = 0 THEN s \o <<0, 0>> ELSE s]
             /\ size' = len + Len(h) + (IF w = 0 THEN 3 ELSE w)
             /\ depth' = depth + 1
Spec == Init /\ [][Next]_<<rec, size, depth>>

\* as built, one octet missing, followed by something
Variants == LET s == rec.suf IN {s, s \o <<0>>, s \o <<5, 0>>} \cup (IF s # << >> THEN {SubSeq(s, 1, Len(s) - 1)} ELSE {})
Recs == {[rec EXCEPT !.suf = s, !.ex = e, !.rules = ru] : s \in Variants, e \in LExprs, ru \in {"ber", "der"}}
Enough == {m \in Fewer : m <= rec.n}

\* run-length coding loses nothing
UnRle(a, u) == a.h \o Copies(u, a.m) \o a.t
UnWire(a) == UnRle(a, rec.unit)
RECURSIVE UnL(_, _), UnRun(_, _, _, _)
Shift(o, k) == IF o >= 0 THEN o + k ELSE o
UnL(v, sh) ==
  IF v.k = "num" THEN v
  ELSE IF v.k = "slice" THEN [k |-> "slice", d |-> UnWire(v.d), o |-> Shift(v.o, sh)]
  ELSE [v EXCEPT !.d = UnWire(@), !.o = Shift(@, sh), !.ch = UnRun(v.ch, 1, 0, sh)]
UnRun(ch, i, j, sh) ==
  IF i > Len(ch) THEN << >>
  ELSE IF j >= ch[i].n THEN UnRun(ch, i + 1, 0, sh)
  ELSE <<UnL(ch[i].v, sh + j * Len(rec.unit))>> \o UnRun(ch, i, j + 1, sh)

Straight(r) == r.x \o Copies(r.unit, r.n) \o r.suf
ILong ==
  depth > 0 => \A r \in Recs :
    LET x == Straight(r)
        d == P(r.ex, r.rules, x, 1, Len(x))
        whole == LongExp(r, r.n)
    IN /\ whole.s = d.s
       /\ d.s = OkS => /\ whole.nx = d.nx
                       /\ UnL(whole.v, 0) = d.v
       /\ \A m \in Enough : LongExp(r, m) = whole
       /\ (d.s = OkS /\ r.ex[1] \notin {"seqofv", "slice"}) =>
            /\ \A m \in Enough : LongCanon(r, m) = LongCanon(r, r.n)
            /\ LongCanon(r, r.n) =>
                 /\ \A m \in Enough : LongEnc(r, m) = LongEnc(r, r.n)
                 /\ UnWire(LongEnc(r, r.n)[1]) = EncObj(d.v)
            /\ \A m \in Enough : LCount(LongExp(r, m).v) = LCount(whole.v) /\ LDepth(LongExp(r, m).v) = LDepth(whole.v)
=============================================================================
