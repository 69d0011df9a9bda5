-------------------------------- MODULE Long --------------------------------
(* Inputs too long to be written out: pre \o unit^n \o suf, where pre is a     *)
(* chain of headers, each enclosing the run.  Their results are given run-    *)
(* length encoded, and are obtained from those of the same input with m       *)
(* copies and the lengths adjusted: Law (in Laws.tla) says that the choice of  *)
(* m does not matter.                                                          *)
EXTENDS Build

Copies(unit, n) == [j \in 1..(n * Len(unit)) |-> unit[((j - 1) % Len(unit)) + 1]]

(* Run-length encoding: head, m copies of the unit, tail; the shortest head    *)
(* that allows most copies                                                     *)
RECURSIVE CopiesAt(_, _, _)
CopiesAt(s, unit, a) ==
  IF a + Len(unit) - 1 > Len(s) \/ SubSeq(s, a, a + Len(unit) - 1) # unit THEN 0
  ELSE 1 + CopiesAt(s, unit, a + Len(unit))
Rle(s, unit) ==
  LET c(a) == CopiesAt(s, unit, a)
      as == 1..(IF Len(s) < 64 THEN Len(s) + 1 ELSE 65)
      best == CHOOSE a \in as : \A b \in as : c(b) < c(a) \/ (c(b) = c(a) /\ a <= b)
      m == c(best)
  IN IF m = 0 THEN [h |-> s, m |-> 0, t |-> << >>]
     ELSE [h |-> SubSeq(s, 1, best - 1), m |-> m, t |-> SubSeq(s, best + m * Len(unit), Len(s))]

\* two encodings one after the other, at most one of them with copies
Cat(a, b) == IF b.m = 0 THEN (IF a.m = 0 THEN [h |-> a.h \o b.h, m |-> 0, t |-> << >>] ELSE [a EXCEPT !.t = @ \o b.h])
             ELSE [b EXCEPT !.h = a.h \o @]
Plainly(s) == [h |-> s, m |-> 0, t |-> << >>]
SizeOf(a, unit) == Len(a.h) + a.m * Len(unit) + Len(a.t)
\* copies at the end of the head and at the beginning of the tail belong to the run
RECURSIVE Norm(_, _)
Norm(a, unit) ==
  LET k == Len(unit) IN
  IF a.m = 0 THEN Rle(a.h \o a.t, unit)
  ELSE IF Len(a.h) >= k /\ SubSeq(a.h, Len(a.h) - k + 1, Len(a.h)) = unit
  THEN Norm([a EXCEPT !.h = SubSeq(@, 1, Len(@) - k), !.m = @ + 1], unit)
  ELSE IF Len(a.t) >= k /\ SubSeq(a.t, 1, k) = unit
  THEN Norm([a EXCEPT !.t = SubSeq(@, k + 1, Len(@)), !.m = @ + 1], unit)
  ELSE a

----------------------------------------------------------------------------
(* The chain of headers, and the same chain around m copies instead of n       *)
RECURSIVE Chain(_, _, _)
Chain(pre, i, rules) ==
  IF i > Len(pre) THEN << >>
  ELSE LET h == Hdr(pre, i, Len(pre), rules) IN
       <<[at |-> i, h |-> h]>> \o Chain(pre, h.lo, rules)

\* octets of the suffix that are part of element q
Inside(pre, c, run) == c.h.len - (Len(pre) - c.h.lo + 1) - run
SmallLen(pre, c, n, m, k) == IF c.h.len = Indef THEN Indef ELSE c.h.len - (n - m) * k
\* length octets: as many as there were
SmallHdr(c, len) ==
  LET w == c.h.lo - c.at - Len(c.h.raw) IN
  c.h.raw \o (IF len = Indef THEN <<128>>
              ELSE IF w = 1 THEN <<len>> ELSE <<127 + w>> \o PadL(NatBytes(len), w - 1, 0))
RECURSIVE SmallPre(_, _, _, _, _, _)
SmallPre(pre, ch, q, n, m, k) ==
  IF q > Len(ch) THEN << >>
  ELSE SmallHdr(ch[q], SmallLen(pre, ch[q], n, m, k)) \o SmallPre(pre, ch, q + 1, n, m, k)

\* the whole context: g.ch chain, g.u unit, g.more copies left out
Ctx(rec, m) ==
  LET ch == Chain(rec.x, 1, "ber") k == Len(rec.unit) IN
  [pre |-> rec.x, ch |-> ch, u |-> rec.unit, more |-> rec.n - m, p |-> Len(rec.x), m |-> m,
   x |-> SmallPre(rec.x, ch, 1, rec.n, m, k) \o Copies(rec.unit, m) \o rec.suf]

----------------------------------------------------------------------------
(* Values.  q > 0: the value of the q-th header of the chain (it contains the  *)
(* run), q = 0: not on the chain; sh: how far its position is off              *)
Big(g, len) == IF len <= 0 THEN len ELSE len + g.more * Len(g.u)
At(o, sh) == IF o >= 0 THEN o + sh ELSE o
\* octets read from the run itself
OnRun(g, v) == v.o >= 0 /\ v.o <= g.p + Len(g.u) /\ v.o + Len(v.d) >= g.p + g.m * Len(g.u)
Wire(a) == [h |-> a.h, hn |-> Len(a.h), m |-> a.m, t |-> a.t, tn |-> Len(a.t)]
\* with the headers in front of the run as they are in the long input
Octets(g, v, s) == IF OnRun(g, v) /\ v.o < g.p
                   THEN SubSeq(g.pre, v.o + 1, g.p) \o SubSeq(s, g.p - v.o + 1, Len(s)) ELSE s
BigD(g, q, v) == LET a == Rle(Octets(g, v, v.d), g.u) IN Wire(IF q > 0 /\ OnRun(g, v) THEN Norm([a EXCEPT !.m = @ + g.more], g.u) ELSE a)

Below(g, v, q) == IF q = 0 \/ q >= Len(g.ch) THEN 0 ELSE IF v.k = "opt" THEN q ELSE q + 1
Repeated(g, v, q) == q > 0 /\ q = Len(g.ch) /\ v.k \in {"seq", "set"} /\ v.ch # << >>

RECURSIVE L(_, _, _, _), Runs(_, _, _, _, _), RunEnd(_, _, _, _, _)
L(g, v, q, sh) ==
  IF v.k = "num" THEN v
  ELSE IF v.k = "slice" THEN [k |-> "slice", d |-> BigD(g, q, v), o |-> At(v.o, sh)]
  ELSE [c |-> v.c, p |-> v.p, t |-> v.t, len |-> IF q > 0 THEN Big(g, v.len) ELSE v.len, raw |-> v.raw,
        k |-> v.k, n |-> v.n, d |-> BigD(g, q, v), o |-> At(v.o, sh),
        ch |-> IF v.k = "opt" /\ v.ch # << >> THEN <<[n |-> 1, v |-> L(g, v.ch[1], q, sh)]>>
               ELSE IF Repeated(g, v, q) THEN
                 LET e == RunEnd(g, v.ch, 1, 2, sh)
                     rest == Runs(g, v.ch, e + 1, 0, sh + g.more * Len(g.u))
                 IN <<[n |-> IF e >= g.m THEN e + g.more ELSE e, v |-> L(g, v.ch[1], 0, sh)]>> \o rest
               ELSE Runs(g, v.ch, 1, Below(g, v, q), sh)]

\* last child of the run of equal children that starts with the i-th
RunEnd(g, ch, i, j, sh) ==
  IF j > Len(ch) THEN Len(ch)
  ELSE IF L(g, ch[j], 0, sh - (j - i) * Len(g.u)) # L(g, ch[i], 0, sh) THEN j - 1
  ELSE RunEnd(g, ch, i, j + 1, sh)
\* q > 0: the first child is on the chain, what follows it comes after the run
Runs(g, ch, i, q, sh) ==
  IF i > Len(ch) THEN << >>
  ELSE IF q > 0 THEN <<[n |-> 1, v |-> L(g, ch[i], q, sh)]>> \o Runs(g, ch, i + 1, 0, sh + g.more * Len(g.u))
  ELSE LET e == RunEnd(g, ch, i, i + 1, sh) IN
       <<[n |-> e - i + 1, v |-> L(g, ch[i], 0, sh)]>> \o Runs(g, ch, e + 1, 0, sh)

\* result of the parser on the long input
LongExp(rec, m) ==
  LET g == Ctx(rec, m)
      r == P(rec.ex, rec.rules, g.x, 1, Len(g.x))
  IN IF r.s # OkS THEN r
     ELSE [s |-> OkS, v |-> L(g, r.v, 1, 0),
           nx |-> IF r.nx > g.p + m * Len(g.u) THEN r.nx + g.more * Len(g.u) ELSE r.nx]

----------------------------------------------------------------------------
(* The encoder on such a value *)
RECURSIVE EncSeg(_, _, _), EncCSeg(_, _, _), EncSegs(_, _, _, _)
\* all elements of ch from the i-th, off the chain
EncSegs(g, ch, i, acc) == IF i > Len(ch) THEN acc ELSE EncSegs(g, ch, i + 1, acc \o EncObj(ch[i]))
EncCSeg(g, v, q) ==
  IF v.k = "opt" THEN IF v.ch = << >> THEN Plainly(<< >>) ELSE EncCSeg(g, v.ch[1], q)
  ELSE IF Repeated(g, v, q)
  THEN LET a == Rle(EncSegs(g, v.ch, 1, << >>), g.u) IN IF a.m >= g.m THEN Norm([a EXCEPT !.m = @ + g.more], g.u) ELSE a
  ELSE IF Below(g, v, q) > 0 /\ v.ch # << >>
  THEN Cat(EncSeg(g, v.ch[1], Below(g, v, q)), Plainly(EncSegs(g, v.ch, 2, << >>)))
  ELSE LET c == EncContent(v) k == Len(c) - Len(v.d)
           \* octets taken from the input come with the headers of the long input
           s == IF k >= 0 /\ SubSeq(c, k + 1, Len(c)) = v.d THEN SubSeq(c, 1, k) \o Octets(g, v, v.d) ELSE c
           a == Rle(s, g.u) IN IF q > 0 /\ OnRun(g, v) THEN Norm([a EXCEPT !.m = @ + g.more], g.u) ELSE a
SegTlv(g, cls, con, t, a) == Cat(Plainly(EncIdent(cls, con, t) \o EncLen(SizeOf(a, g.u))), a)
EncSeg(g, v, q) ==
  IF v.k = "opt" /\ v.ch = << >> THEN Plainly(<< >>) ELSE SegTlv(g, v.c, v.p, v.t, EncCSeg(g, v, q))

\* to_vec, the generator, [2] EXPLICIT, [2] IMPLICIT
LongEnc(rec, m) ==
  LET g == Ctx(rec, m)
      v == P(rec.ex, rec.rules, g.x, 1, Len(g.x)).v
      t == TagOf(2)
      e == EncSeg(g, v, 1)
      n(a) == Wire(Norm(a, g.u))
  IN << n(e), n(e), n(SegTlv(g, 2, 1, t, e)), n(SegTlv(g, 2, v.p, t, EncCSeg(g, v, 1))) >>

\* the repeated member is written as it was read, so that the encoding is a run of the same unit
RECURSIVE LongCanonAt(_, _, _)
LongCanonAt(g, v, q) ==
  IF v.k = "opt" THEN v.ch = << >> \/ LongCanonAt(g, v.ch[1], q)
  ELSE IF Repeated(g, v, q) THEN EncObj(v.ch[1]) = g.u
  ELSE IF Below(g, v, q) > 0 /\ v.ch # << >> THEN LongCanonAt(g, v.ch[1], Below(g, v, q))
  ELSE TRUE
LongCanon(rec, m) ==
  LET g == Ctx(rec, m) IN LongCanonAt(g, P(rec.ex, rec.rules, g.x, 1, Len(g.x)).v, 1)

----------------------------------------------------------------------------
(* Visitors and iterators: number of objects, depth; on the run-length form *)
RECURSIVE LCount(_), LCounts(_, _, _), LDepth(_), LDepths(_, _, _)
Walked(v) == v.k \in {"seq", "set"}
LCounts(ch, i, acc) == IF i > Len(ch) THEN acc ELSE LCounts(ch, i + 1, acc + ch[i].n * LCount(ch[i].v))
LCount(v) == IF Walked(v) THEN LCounts(v.ch, 1, 1) ELSE 1
LDepths(ch, i, acc) == IF i > Len(ch) THEN acc
                       ELSE LET d == LDepth(ch[i].v) + 1 IN LDepths(ch, i + 1, IF d > acc THEN d ELSE acc)
LDepth(v) == IF Walked(v) THEN LDepths(v.ch, 1, 0) ELSE 0
RECURSIVE Total(_, _)
Total(ch, i) == IF i > Len(ch) THEN 0 ELSE ch[i].n + Total(ch, i + 1)
LIter(v) == IF Walked(v) THEN <<Total(v.ch, 1), Total(v.ch, 1)>> ELSE <<0, 1>>
=============================================================================
