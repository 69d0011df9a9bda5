------------------------------- MODULE Judge --------------------------------
(* What each property requires of one recorded call (or session of calls) of  *)
(* the implementation.  Judge(p, rec) is the acceptance condition of property *)
(* p; a record carries the operation, its arguments, the input x, whether the *)
(* call returned at all (st) and what was observed (r).                       *)
EXTENDS Stream, Long, UserParsers

R2B(rules) == rules = "ber"
IsOk(r) == r.s = OkS

HdrVal(h) == [c |-> h.cls, p |-> h.con, t |-> h.tag, len |-> h.len, raw |-> h.raw, lb |-> h.lb]
AnyVal(x, a) == [c |-> a.h.cls, p |-> a.h.con, t |-> a.h.tag, len |-> a.h.len, raw |-> a.h.raw,
                 d |-> SubSeq(x, a.lo, a.hi), o |-> Off(a.lo, a.hi)]

\* expected result of the parsing call recorded in rec
Exp(rec) ==
  LET x == rec.x n == Len(rec.x) IN
  CASE rec.op = "parse" -> IF R2B(rec.rules) THEN ParseBer(x, 1, n, rec.depth)
                           ELSE ParseDer(x, 1, n, rec.depth)
    [] rec.op = "tag" -> IF R2B(rec.rules) THEN ParseBerTag(x, 1, n, rec.tag)
                         ELSE ParseDerTag(x, 1, n, rec.tag)
    [] rec.op = "tagr" -> ParseBerTagR(x, 1, n, rec.tag, rec.depth)
    [] rec.op = "expr" -> P(rec.ex, rec.rules, x, 1, n)
    [] rec.op = "hdr" ->
         LET h == Hdr(x, 1, n, rec.rules) IN IF h.s # OkS THEN h ELSE Ok(HdrVal(h), h.lo)
    [] rec.op = "any" ->
         LET a == AnyEl(x, 1, n) IN IF a.s # OkS THEN a ELSE Ok(AnyVal(x, a), a.nx)
    [] rec.op = "contas" ->
         LET h == [cls |-> 0, con |-> rec.con, tag |-> rec.tag, tn |-> TagNum(rec.tag),
                   len |-> rec.len, lb |-> rec.lb, lo |-> 1]
             r == IF R2B(rec.rules) THEN BerContentAs(x, h, n, rec.depth)
                  ELSE DerContentAs(x, h, n, rec.depth)
         IN IF r.s # OkS THEN r
            ELSE Ok([k |-> r.c.k, n |-> r.c.n, d |-> r.c.d, o |-> r.c.o, ch |-> r.c.ch], r.nx)
    [] rec.op = "cont" ->
         LET h == Hdr(x, 1, n, "der") IN
         IF h.s # OkS THEN h ELSE DerElement(x, h, n, MaxRecursion)

ParseOps == {"parse", "tag", "tagr", "expr", "hdr", "any", "contas", "cont"}

----------------------------------------------------------------------------
(* Comparisons of an observed result r with an expected result e *)

\* accepted or not
SameAccept(r, e) == IsOk(r) <=> IsOk(e)
\* same acceptance, value and consumption
SameOk(r, e) == IF IsOk(e) THEN IsOk(r) /\ r.sfx /\ r.nx = e.nx /\ r.v = e.v
                ELSE ~IsOk(r)
\* and also the same distinction between "needs more input" and "malformed"
SameStatus(r, e) == SameOk(r, e) /\ ((r.s = IncS) <=> (e.s = IncS))
\* and the same kind of error
SameExact(r, e) == SameOk(r, e) /\ (IsOk(e) \/ (r.s = e.s /\ r.e = e.e))
\* same value (up to what a serializer may choose) and the whole of n bytes consumed
SameBack(r, e, n) == IsOk(e) => (IsOk(r) /\ SameValue(r.v, e.v) /\ r.nx = n + 1)

----------------------------------------------------------------------------
(* Framing: what a successful call may consume *)
ZeroWidth(ex) == ex[1] \in {"opt", "explopt", "nothing"}

FramingOk(rec) ==
  LET r == rec.r x == rec.x n == Len(rec.x) IN
  IF ~IsOk(r) THEN TRUE
  ELSE /\ r.sfx
       /\ r.nx \in 1..(n + 1)
       /\ CASE rec.op = "hdr" -> LET h == Hdr(x, 1, n, rec.rules) IN h.s = OkS /\ r.nx = h.lo
            [] rec.op = "contas" ->
                 IF rec.len >= 0 THEN r.nx = rec.len + 1
                 ELSE LET e == Exp(rec) IN IsOk(e) /\ r.nx = e.nx
            [] rec.op = "expr" /\ ZeroWidth(rec.ex) /\ r.nx = 1 -> TRUE
            [] OTHER -> LET a == AnyEl(x, 1, n) IN a.s = OkS /\ r.nx = a.nx

\* an element that parses alone parses the same when other bytes follow it
TrailOk(rec) ==
  LET one == rec.r.one two == rec.r.two n == Len(rec.x) IN
  IsOk(one) =>
    /\ one.sfx
    /\ (IF ZeroWidth(rec.ex) /\ one.nx = 1 THEN TRUE
        ELSE /\ IsOk(two) /\ two.sfx /\ two.nx = one.nx /\ two.v = one.v
             /\ LET a == AnyEl(rec.x, 1, n) IN a.s = OkS /\ one.nx = a.nx)

----------------------------------------------------------------------------
RECURSIVE ObjDepth(_), ObjDepths(_, _, _)
ObjDepths(ch, j, m) == IF j > Len(ch) THEN m
                       ELSE LET d == ObjDepth(ch[j]) IN ObjDepths(ch, j + 1, IF d > m THEN d ELSE m)
ObjDepth(o) == 1 + ObjDepths(o.ch, 1, 0)

\* the levels that the combinators themselves add
RECURSIVE ExLevels(_), ExLevelsMax(_, _)
ExLevelsMax(ex, j) == IF j > Len(ex) THEN 0
                      ELSE LET a == ExLevels(ex[j]) b == ExLevelsMax(ex, j + 1) IN IF a > b THEN a ELSE b
ExLevels(ex) ==
  CASE ex[1] \in {"any", "t", "ty"} -> 0
    [] ex[1] \in {"opt", "seqof", "setof", "seqdef", "setdef"} -> 1 + ExLevelsMax(ex, 2)
    [] ex[1] = "expl" -> 1 + ExLevels(ex[3])
    [] ex[1] = "explopt" -> 2 + ExLevels(ex[3])
    [] OTHER -> 1

DepthOk(rec) ==
  LET e == Exp(rec) r == rec.r IN
  /\ SameAccept(r, e)
  /\ (IsOk(r) /\ rec.op \in {"parse", "tagr"}) => ObjDepth(r.v) <= rec.depth
  /\ (IsOk(r) /\ rec.op = "tag") => ObjDepth(r.v) <= MaxRecursion
  /\ (IsOk(r) /\ rec.op = "expr") => ObjDepth(r.v) <= MaxRecursion + ExLevels(rec.ex)
  /\ (~IsOk(e) /\ e.e = "BerMaxDepth") => r.e = "BerMaxDepth"

----------------------------------------------------------------------------
(* Truncation: r is the list of results on every prefix 0..n                 *)
PrefixOk(rec) ==
  LET x == rec.x n == Len(rec.x)
      e == P(rec.ex, rec.rules, x, 1, n)
      \* bytes of the outermost identifier
      id == Ident(x, 1, n)
  IN
  IF ~IsOk(e) THEN TRUE
  ELSE \A k \in 1..(n + 1) :
         LET q == rec.r[k]       \* result on the first k-1 bytes
             m == k - 1
         IN IF m >= e.nx - 1 THEN q.s = OkS /\ q.nx = e.nx
            ELSE \/ q.s = IncS
                 \* deviation D2: a cut inside a multi-byte identifier is reported as an error
                 \/ q.s = ErrS /\ P(rec.ex, rec.rules, SubSeq(x, 1, m), 1, m).s = ErrS

----------------------------------------------------------------------------
(* Accessors *)
AccSame(r, names) ==
  \A nm \in names : LET e == Acc(nm, r.v) a == r.acc[nm] IN
     IF IsOk(e) THEN IsOk(a) /\ a.d = e.d ELSE ~IsOk(a)
AccKind(r, names) ==
  \A nm \in names : LET e == Acc(nm, r.v) a == r.acc[nm] IN IsOk(e) \/ (~IsOk(a) /\ a.e = e.e)

HeaderQueries(r) ==
  /\ r.acc.flags = Flags(r.v) /\ r.acc.tags = TagTests(r.v) /\ r.acc.own = 1
  /\ r.acc.tag = r.v.t /\ r.acc.length = r.v.len

\* the object the record is about, as the specification decodes or builds it
Subject(rec) ==
  LET x == rec.x n == Len(rec.x) IN
  IF rec.src = "parse" THEN ParseBer(x, 1, n, MaxRecursion)
  ELSE IF rec.src = "expr" THEN P(rec.ex, rec.rules, x, 1, n)
  ELSE Ok(BuildObj(rec.ex), 1)
\* the recorded object is the right one (constructors); everything else about objects is judged
\* on the object as recorded
SubjectOk(rec) == LET e == Subject(rec) IN
  IF IsOk(e) THEN IsOk(rec.r) /\ rec.r.v = e.v ELSE ~IsOk(rec.r)

BitsKind(rec) ==
  /\ LET e == BitsVal(rec.pad, rec.x, 8) a == rec.r.u64 IN IsOk(e) \/ (~IsOk(a) /\ a.e = e.e)
  /\ LET e == BitsVal(rec.pad, rec.x, 4) a == rec.r.u32 IN IsOk(e) \/ (~IsOk(a) /\ a.e = e.e)

BitsOk(rec) ==
  LET d == rec.x r == rec.r n == Len(rec.x) * 8 IN
  /\ Len(r.set) >= n
  /\ \A k \in 1..Len(r.set) : r.set[k] = B01(BitSet(d, k - 1))
  /\ Len(r.far) = 5 /\ r.far[1] = B01(BitSet(d, 1000)) /\ r.far[2] = B01(BitSet(d, 65536))
  /\ \A k \in 3..5 : r.far[k] = 0       \* positions near the largest integer
  /\ Len(r.pows) = 188 /\ (n < 131000 => \A k \in 1..188 : r.pows[k] = 0)    \* around 2^17 ... 2^63
  /\ r.slice = [k \in 1..n |-> B01(BitSet(d, k - 1))]
  /\ r.asref = d
  /\ LET e == BitsVal(rec.pad, d, 8) a == r.u64 IN IF IsOk(e) THEN IsOk(a) /\ a.d = e.d ELSE ~IsOk(a)
  /\ LET e == BitsVal(rec.pad, d, 4) a == r.u32 IN IF IsOk(e) THEN IsOk(a) /\ a.d = e.d ELSE ~IsOk(a)

----------------------------------------------------------------------------
(* Iteration *)
IterOk(r) ==
  /\ r.ref = IterRef(r.v) /\ r.into = IterInto(r.v) /\ r.idx = IterRef(r.v)
  /\ r.after = <<0, 0>> /\ r.oob

\* a history of operations on two borrowing iterators (a, b) and an owning one (i): the next element
\* (a, b, i), the one after the next (A, I), all the rest (d, D), a new iterator (r, R), bounds of the
\* number of elements left (h, H)
IterOf(e) == CASE e \in {"a", "A", "r", "d", "h"} -> "a" [] e = "b" -> "b" [] OTHER -> "i"
ItAdvance(e, pos, n) == CASE e \in {"a", "b", "i"} -> pos + 1
                          [] e \in {"A", "I"} -> pos + 2
                          [] e \in {"d", "D"} -> n + 1
                          [] e \in {"r", "R"} -> 1
                          [] OTHER -> pos
RECURSIVE ItRun(_, _, _, _)
ItRun(v, evs, k, st) ==
  IF k > Len(evs) THEN TRUE
  ELSE LET ev == evs[k]
           it == IterOf(ev.e)
           all == IF it = "i" THEN IterInto(v) ELSE IterRef(v)
           nth(j) == IF j <= Len(all) THEN <<all[j]>> ELSE << >>
           pos == st[it]
           left == IF pos > Len(all) THEN 0 ELSE Len(all) - pos + 1
       IN /\ CASE ev.e \in {"a", "b", "i"} -> ev.l = nth(pos)
               [] ev.e \in {"A", "I"} -> ev.l = nth(pos + 1)
               [] ev.e \in {"d", "D"} -> ev.l = SubSeq(all, pos, Len(all))
               [] ev.e \in {"h", "H"} -> ev.l = << >> /\ ev.lo <= left /\ (ev.hi = -1 \/ left <= ev.hi)
               [] OTHER -> ev.l = << >>
          /\ ItRun(v, evs, k + 1, [st EXCEPT ![it] = ItAdvance(ev.e, pos, Len(all))])

----------------------------------------------------------------------------
(* Visitors *)
RECURSIVE MutObj(_)
MutObj(o) ==
  CASE o.k = "bool" -> [o EXCEPT !.n = <<1 - o.n[1]>>]
    [] o.k = "int" -> [o EXCEPT !.d = <<42>>, !.o = -1]
    [] o.k \in {"seq", "set"} -> [o EXCEPT !.ch = [j \in 1..Len(o.ch) |-> MutObj(o.ch[j])]]
    [] OTHER -> o

WalkOk(rec) ==
  LET r == rec.r v == rec.r.v w0 == Walk(v, 0) wd == Walk(v, rec.at) IN
  /\ r.run = w0 /\ r.at = wd
  /\ r.mrun = w0 /\ r.mrunv = v
  /\ r.mat = wd /\ r.matv = v
  /\ r.mut = w0 /\ r.mutv = MutObj(v)

----------------------------------------------------------------------------
(* Pretty printer *)
PrettyOk(rec) ==
  LET fl == FlagHist(rec.flags, 1, 1, 0)
      last == IF fl = << >> THEN <<1, 0>> ELSE fl[Len(fl)]
  IN /\ rec.r.flags = fl
     /\ rec.r.text = PrettyText(rec.r.v, rec.ind + rec.inc * Len(SelectSeq(rec.flags, LAMBDA f : f = "n")), rec.inc, last[1] = 1, last[2] = 1)

----------------------------------------------------------------------------
(* Serializer *)
\* the octets
EncBytesOk(rec) ==
  LET r == rec.r.x v == rec.r.v
      want(a, b) == IsOk(a) /\ a.d = b
  IN
  /\ want(r.enc, EncObj(v)) /\ want(r.gen, EncObj(v))
  /\ v.len # Huge => want(r.raw, EncHeader(v.c, v.p, v.t, v.len = Indef, NatBytes(IF v.len < 0 THEN 0 ELSE v.len))
                                 \o EncContent(v))
  /\ want(r.expl, EncExplicit(rec.ecls, rec.etag, v))
  /\ want(r.impl, EncImplicit(rec.ecls, rec.etag, v))

\* decoding what was serialized gives the object back
RoundTripOk(rec) ==
  LET r == rec.r.x v == rec.r.v
      b == EncObj(v) n == Len(b)
      eb == ParseBer(b, 1, n, MaxRecursion)
      ed == ParseDer(b, 1, n, MaxRecursion)
      xp == EncExplicit(rec.ecls, rec.etag, v)
      im == EncImplicit(rec.ecls, rec.etag, v)
      ep == P(<<"expl", TagNum(rec.etag), <<"any">> >>, "ber", xp, 1, Len(xp))
      ei == P(<<"impl", TagNum(rec.etag), TagNum(v.t)>>, "ber", im, 1, Len(im))
      \* decoded objects must come back unconditionally; for objects that were built by hand the
      \* specification decides whether they have a decodable encoding
      rt == IF rec.src = "parse" THEN Plain(v) ELSE IsOk(eb) /\ SameValue(eb.v, v)
  IN
  /\ IsOk(r.enc) /\ IsOk(r.expl) /\ IsOk(r.impl)
  /\ rt => IsOk(r.ber) /\ SameValue(r.ber.v, v) /\ r.ber.nx = Len(r.enc.d) + 1
  /\ (rt /\ IsOk(ed)) => IsOk(r.der) /\ SameValue(r.der.v, v) /\ r.der.nx = Len(r.enc.d) + 1
  /\ TagNum(rec.etag) < 65536 =>
       /\ SameBack(r.explback, ep, Len(r.expl.d))
       /\ (TagNum(v.t) < 65536) => SameBack(r.implback, ei, Len(r.impl.d))

EncHdrOk(rec) ==
  LET r == rec.r b == EncHeader(rec.ecls, rec.con, rec.etag, rec.len = Indef, rec.lb)
      h == Hdr(b, 1, Len(b), "ber")
  IN /\ IsOk(r.enc) /\ r.enc.d = b
     /\ IF h.s = OkS THEN IsOk(r.back) /\ r.back.v = HdrVal(h) /\ r.back.nx = Len(b) + 1
        ELSE ~IsOk(r.back)

----------------------------------------------------------------------------
(* Conversion of a generic element to an object                              *)
\* what the contents of a generic element decode to
AnyContents(rec) ==
  LET a == rec.r.any m == Len(a.d) IN
  IF a.c # 0
  THEN LET c == Val("unknown", <<a.c, a.p>>, a.d, a.o) IN [s |-> OkS, c |-> c]
  ELSE
  LET
      h == [cls |-> 0, con |-> a.p, tag |-> a.t, tn |-> TagNum(a.t), len |-> m, lb |-> NatBytes(m),
            lo |-> IF m = 0 THEN 1 ELSE a.o + 1]
  IN IF m = 0 THEN BerContentAs(<< >>, h, 0, MaxRecursion)
     ELSE BerContentAs(rec.x, h, a.o + m, MaxRecursion)
TryAnyKind(rec) ==
  IF ~IsOk(rec.r) THEN TRUE
  ELSE LET e == AnyContents(rec) r == rec.r IN
       e.s = OkS \/ (~IsOk(r.ref) /\ ~IsOk(r.own) /\ r.ref.e = e.e /\ r.own.e = e.e)
TryAnyOk(rec) ==
  LET r == rec.r x == rec.x n == Len(rec.x)
      a == r.any
      m == Len(a.d)
      e == AnyContents(rec)
      v == IF e.s # OkS THEN << >>
           ELSE [c |-> a.c, p |-> a.p, t |-> a.t, len |-> a.len, raw |-> a.raw,
                 k |-> e.c.k, n |-> e.c.n, d |-> e.c.d, o |-> e.c.o, ch |-> e.c.ch]
      el == AnyEl(x, 1, n)
  IN
  IF ~IsOk(r) THEN TRUE            \* the other library did not produce a generic element
  ELSE /\ (m > 0 => SubSeq(x, a.o + 1, a.o + m) = a.d)
       /\ (el.s = OkS /\ el.h.len >= 0) => a = AnyVal(x, el)
       /\ IF e.s = OkS THEN IsOk(r.ref) /\ r.ref.v = v /\ IsOk(r.own) /\ r.own.v = v
          ELSE ~IsOk(r.ref) /\ ~IsOk(r.own)
       \* the same object as decoding the bytes directly
       /\ LET b == ParseBer(x, 1, n, MaxRecursion) IN
          (IsOk(b) /\ el.hi - el.lo + 1 = m) => IsOk(r.ref) /\ r.ref.v = b.v /\ r.own.v = b.v

----------------------------------------------------------------------------
(* Equality of objects: class, form, tag and contents; the lengths and slices *)
(* they were read from do not matter, and raw tags only if both have one      *)
SameRaw(a, b) == a.raw = b.raw \/ a.raw = << >> \/ b.raw = << >>
RECURSIVE SameContent(_, _), SameObject(_, _)
SameContent(a, b) == /\ a.k = b.k /\ a.n = b.n /\ a.d = b.d /\ Len(a.ch) = Len(b.ch)
                     /\ \A j \in 1..Len(a.ch) : SameObject(a.ch[j], b.ch[j])
                     /\ (a.k = "unknown" => a.t = b.t /\ SameRaw(a, b))
SameHeader(a, b) == /\ <<a.c, a.p, a.t>> = <<b.c, b.p, b.t>>
                    /\ SameRaw(a, b)
SameObject(a, b) == SameHeader(a, b) /\ SameContent(a, b)
EqOk(rec) == LET r == rec.r IN
  /\ r.eq = SameObject(r.a, r.b) /\ r.qe = r.eq /\ r.ne = ~r.eq
  /\ r.ceq = SameContent(r.a, r.b) /\ r.heq = SameHeader(r.a, r.b)
  /\ r.again /\ r.clone /\ r.cl = r.a
  /\ IF rec.src = "build" THEN r.a = BuildObj(rec.ex) /\ r.b = BuildObj(rec.ex2)
     ELSE LET e == ParseBer(rec.x, 1, Len(rec.x), MaxRecursion) IN IsOk(e) => SameObject(r.a, e.v)

----------------------------------------------------------------------------
(* Streams *)
StreamOk(rec) ==
  LET st == StRun(rec.x, rec.rules, StInit, rec.r, 1)
      d == Delivered(rec.r)
      w == Whole(rec.x, 1, rec.rules)
  IN /\ st.mode # "reject"
     \* the objects do not depend on the chunks
     /\ st.fed = Len(rec.x) => d = w
     /\ Len(d) <= Len(w) /\ d = SubSeq(w, 1, Len(d))

----------------------------------------------------------------------------
(* BER and DER on the same input: what DER accepts, BER accepts identically  *)
PairOk(rec) ==
  LET r == rec.r IN
  IsOk(r.der) => IsOk(r.ber) /\ r.ber.nx = r.der.nx /\ r.ber.v = r.der.v /\ r.eq

----------------------------------------------------------------------------
OidOk(rec) ==
  LET e == OidEncodable(rec.arcs, rec.rel = 1) IN
  IF e THEN IsOk(rec.r) /\ rec.r.d = EncOid(rec.arcs, rec.rel = 1) ELSE ~IsOk(rec.r)

----------------------------------------------------------------------------
(* Parsers supplied by the user: the calls they get, their values and errors *)
UserErrs == {UserErr(n) : n \in 1..9}
UserOk(rec) ==
  LET e == Session(rec.ex, rec.rules, rec.x, 1, rec.times, << >>, << >>) r == rec.r IN
  /\ r.log = e[2]
  /\ Len(r.v) = Len(e[1])
  /\ \A j \in 1..Len(r.v) :
       LET a == r.v[j] b == e[1][j].r IN
       /\ a.log = e[1][j].log
       /\ IF IsOk(b) THEN SameOk(a, b)
          ELSE /\ a.s = b.s
               /\ (a.e \in UserErrs \/ b.e \in UserErrs) => a.e = b.e

----------------------------------------------------------------------------
(* Long inputs: the result, and what is done with the object *)
LongCopies(rec) == IF rec.n < 7 THEN rec.n ELSE 7
LongOk(p, rec) ==
  LET r == rec.r m == LongCopies(rec) e == LongExp(rec, m) IN
  /\ SameStatus(r, e)
  /\ p = "C27" => SameExact(r, e)
  /\ (IsOk(r) /\ "enc" \in DOMAIN r) =>
       /\ (p \in {"C13", "C14"} /\ LongCanon(rec, m)) =>
            /\ r.enc = LongEnc(rec, m)
            /\ (p = "C13" /\ rec.ex = <<"any">> /\ e.v.c = 0) => r.back = <<0, 1, 1>>
       /\ p = "C20" => r.walk = <<LCount(e.v), LDepth(e.v)>>
       /\ p = "C21" => r.iter = LIter(e.v) /\ r.last
       /\ p = "C28" => r.clone
       /\ (p = "C24" /\ rec.ex = <<"any">> /\ e.v.c = 0) => r.conv = <<e.v, e.v>>

----------------------------------------------------------------------------
Judge(p, rec) ==
  /\ rec.st = "done"
  /\ LET r == rec.r IN
     CASE p = "EX" /\ rec.op \in ParseOps -> SameExact(r, Exp(rec))
       [] rec.op = "long" /\ p # "C01" -> LongOk(p, rec)
       [] p = "C01" -> TRUE
       [] p = "C02" /\ rec.op = "trail" -> TrailOk(rec)
       [] p = "C02" -> FramingOk(rec)
       [] p = "C06" -> DepthOk(rec)
       [] rec.op = "pair" -> PairOk(rec)
       [] rec.op = "prefix" -> PrefixOk(rec)
       [] rec.op = "stream" -> StreamOk(rec)
       [] rec.op = "acc" /\ p = "C08" -> (IsOk(r) => AccSame(r, IntAccessors))
       [] rec.op = "acc" /\ p = "C27" -> (IsOk(r) => AccKind(r, IntAccessors \cup OtherAccessors))
       [] rec.op = "acc" -> (IsOk(r) => AccSame(r, OtherAccessors) /\ HeaderQueries(r))
       [] rec.op = "bits" /\ p = "C27" -> BitsKind(rec)
       [] rec.op = "bits" -> BitsOk(rec)
       [] rec.op = "iter" -> (IsOk(r) => IterOk(r))
       [] rec.op = "itops" -> (IsOk(r) => ItRun(r.v, r.ev, 1, [a |-> 1, b |-> 1, i |-> 1]))
       [] rec.op = "walk" -> (IsOk(r) => WalkOk(rec))
       [] rec.op = "pretty" -> (IsOk(r) => PrettyOk(rec))
       [] rec.op = "build" -> SubjectOk(rec) /\ r.eq
       [] rec.op = "eq" -> (IsOk(r) => EqOk(rec))
       [] rec.op = "enc" /\ p = "C13" -> (IsOk(r) => RoundTripOk(rec))
       [] rec.op = "enc" -> (IsOk(r) => EncBytesOk(rec))
       [] rec.op = "enchdr" -> EncHdrOk(rec)
       [] rec.op = "tryany" /\ p = "C27" -> TryAnyKind(rec)
       [] rec.op = "tryany" -> TryAnyOk(rec)
       [] rec.op = "oid" -> OidOk(rec)
       [] rec.op = "user" -> UserOk(rec)
       [] p = "C07" /\ rec.op \in ParseOps -> SameStatus(r, Exp(rec))
       [] p = "C27" /\ rec.op \in ParseOps -> SameExact(r, Exp(rec))
       [] rec.op \in ParseOps -> SameOk(r, Exp(rec))
       [] rec.op = "total" -> TRUE
       [] OTHER -> FALSE
=============================================================================
