-------------------------------- MODULE Laws --------------------------------
(* One law per property, over a single byte string.  TLC checks them on every *)
(* byte string over a small alphabet (MC_Laws) and on everything Gen builds.   *)
(* They say that the specification the implementation is held to has the       *)
(* guarantees the properties are about.                                        *)
EXTENDS Stream, Build, UserParsers

Depths == {0, 1, 2, 3, MaxRecursion}
Dec1(x, rules, d) == IF rules = "ber" THEN ParseBer(x, 1, Len(x), d) ELSE ParseDer(x, 1, Len(x), d)
Rls == {"ber", "der"}
Full(x, rules) == Dec1(x, rules, MaxRecursion)
Statuses == {OkS, IncS, ErrS, FailS}
Exprs == { <<"any">>, <<"t", 2>>, <<"seqof", <<"any">>>>, <<"setof", <<"any">>>>, <<"seqdef", <<"any">>, <<"any">>>>,
           <<"expl", 0, <<"any">>>>, <<"impl", 0, 4>>, <<"opt", <<"t", 2>>>>, <<"u32">>, <<"slice", 16>>,
           <<"seqofv", <<"i32">>>>, <<"seqdefg", <<"opt", <<"t", 1>>>>, <<"any">>>> }
Narrow == Exprs \ {<<"opt", <<"t", 2>>>>}

RECURSIVE ODepth(_), ODepths(_, _, _), Count(_), Counts(_, _, _), Subs(_), SubsOf(_, _)
ODepths(ch, j, m) == IF j > Len(ch) THEN m
                     ELSE LET d == ODepth(ch[j]) IN ODepths(ch, j + 1, IF d > m THEN d ELSE m)
ODepth(o) == 1 + ODepths(o.ch, 1, 0)
Counts(ch, j, m) == IF j > Len(ch) THEN m ELSE Counts(ch, j + 1, m + Count(ch[j]))
Count(o) == IF o.k \in {"seq", "set"} THEN Counts(o.ch, 1, 1) ELSE 1
\* an object and everything below it
SubsOf(ch, j) == IF j > Len(ch) THEN << >> ELSE Subs(ch[j]) \o SubsOf(ch, j + 1)
Subs(o) == <<o>> \o SubsOf(o.ch, 1)
All(o, Q(_)) == LET ss == Subs(o) IN \A j \in 1..Len(ss) : Q(ss[j])

\* every header inside s[i..e] (a sequence of elements) is in its shortest form
RECURSIVE MinHdrs(_, _, _)
MinHdrs(s, i, e) ==
  IF i > e THEN TRUE
  ELSE LET a == AnyEl(s, i, e) IN
       IF a.s # OkS THEN FALSE
       ELSE /\ EncHeader(a.h.cls, a.h.con, a.h.tag, FALSE, a.h.lb) = SubSeq(s, i, a.lo - 1)
            /\ (a.h.cls = 0 /\ a.h.tn \in {16, 17}) => MinHdrs(s, a.lo, a.hi)
            /\ MinHdrs(s, a.nx, e)

\* UTF-8 by code points: length from the lead byte, then the range of the value (RFC 3629)
RECURSIVE U8Chars(_)
U8Chars(s) ==
  IF s = << >> THEN TRUE
  ELSE LET b == s[1]
           n == CASE b < 128 -> 1 [] b \in 192..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..247 -> 4 [] OTHER -> 0
           lead == CASE n = 1 -> b [] n = 2 -> b - 192 [] n = 3 -> b - 224 [] OTHER -> b - 240
       IN IF n = 0 \/ Len(s) < n THEN FALSE
          ELSE IF \E k \in 2..n : s[k] \notin 128..191 THEN FALSE
          ELSE LET cp == FoldLeft(LAMBDA acc, c : acc * 64 + (c - 128), lead, SubSeq(s, 2, n)) IN
               /\ cp >= (CASE n = 1 -> 0 [] n = 2 -> 128 [] n = 3 -> 2048 [] OTHER -> 65536)
               /\ cp \notin 55296..57343 /\ cp <= 1114111
               /\ U8Chars(SubSeq(s, n + 1, Len(s)))

\* C01: every operation has a result, and one of the four statuses
Law01(x) == \A ru \in Rls : /\ \A d \in Depths : Dec1(x, ru, d).s \in Statuses
                            /\ \A e \in Exprs : P(e, ru, x, 1, Len(x)).s \in Statuses

\* C02: a success consumes exactly one element and is not affected by what follows
Law02(x) ==
  \A ru \in Rls : \A e \in Narrow :
    LET r == P(e, ru, x, 1, Len(x)) IN
    r.s = OkS =>
      /\ LET a == AnyEl(x, 1, Len(x)) IN a.s = OkS /\ r.nx = a.nx
      /\ P(e, ru, SubSeq(x, 1, r.nx - 1), 1, r.nx - 1) = r
      /\ \A y \in {<<0>>, <<255>>, <<0, 0>>} : P(e, ru, x \o y, 1, Len(x) + Len(y)) = r

\* C03: the bytes of a value are the bytes of the input it claims; children follow one another
InInput(x, o) == o.o >= 0 => SubSeq(x, o.o + 1, o.o + Len(o.d)) = o.d
Law03(x) ==
  LET r == Full(x, "ber") a == AnyEl(x, 1, Len(x)) IN
  r.s = OkS =>
    /\ All(r.v, LAMBDA o : InInput(x, o))
    /\ <<r.v.c, r.v.p, r.v.t>> = <<a.h.cls, a.h.con, a.h.tag>>
    /\ r.v.c = 0 => r.v.k = KindOf(TagNum(r.v.t))
    \* the children of a group are what decoding its contents one after another gives
    /\ r.v.k \in {"seq", "set"} =>
         LET lens == Whole(SubSeq(x, a.lo, a.hi), 1, "ber") IN
         Len(lens) = Len(r.v.ch) /\ FoldLeft(LAMBDA p, q : p + q, 0, lens) = a.hi - a.lo + 1

\* C04: what the DER decoder accepts is in distinguished form at every level
DerForm(o) ==
  /\ o.len # Indef
  /\ o.k = "bits" => o.n[1] <= 7 /\ (o.d = << >> => o.n[1] = 0)
                     /\ (o.d # << >> => o.d[Len(o.d)] % Pow2[o.n[1]] = 0)
  /\ o.k = "int" => o.d # << >> /\ MinTwos(o.d) = o.d
  /\ o.k \in StringKinds \cup {"octets", "bits", "bmp", "universal"} => o.p = 0
  /\ o.k \in {"utctime", "gentime"} => o.n[8] = 1
  /\ o.k \in {"seq", "set"} => o.p = 1
Law04(x) == LET r == Full(x, "der") IN
  r.s = OkS => All(r.v, DerForm)
\* the BOOLEAN octet is visible only in the input
Law04b(x) == LET r == P(<<"t", 1>>, "der", x, 1, Len(x)) IN
  r.s = OkS => LET a == AnyEl(x, 1, Len(x)) IN a.hi = a.lo /\ x[a.lo] \in {0, 255}

\* C05
Law05(x) == \A e \in Exprs \ {<<"opt", <<"t", 2>>>>, <<"seqdefg", <<"opt", <<"t", 1>>>>, <<"any">>>>} :
  LET d == P(e, "der", x, 1, Len(x)) IN d.s = OkS => P(e, "ber", x, 1, Len(x)) = d

\* C06: the depth limit bounds the object, more depth never changes a success, and running out of
\* depth is the only thing it changes
Law06(x) == \A ru \in Rls : \A d \in {0, 1, 2, 3} :
  LET r == Dec1(x, ru, d) q == Dec1(x, ru, d + 1) IN
  /\ d = 0 => r = Err("BerMaxDepth")
  /\ r.s = OkS => ODepth(r.v) <= d /\ q = r
  /\ (r.s # OkS /\ q.s = OkS) => r = Err("BerMaxDepth")

\* C07: a proper prefix of an accepted input is never accepted, and asks for more input unless it
\* is cut inside the identifier (deviation D2)
Law07(x) == \A ru \in Rls : LET r == Full(x, ru) IN
  r.s = OkS => \A m \in 0..(r.nx - 2) :
    LET q == Dec1(SubSeq(x, 1, m), ru, MaxRecursion) id == Ident(x, 1, Len(x)) IN
    \/ q.s = IncS
    \/ q = Err("InvalidTag") /\ AnyEl(x, 1, Len(x)).h.len # Indef /\ m < id.nx - 1
    \/ q = Err("InvalidTag") /\ AnyEl(x, 1, Len(x)).h.len = Indef

\* C08: conversions of INTEGER contents x
Law08(x) ==
  LET i4 == SignedVal(x, 4) i8 == SignedVal(x, 8) u4 == UnsignedVal(x, 4) u8 == UnsignedVal(x, 8) IN
  /\ i4.s = OkS => i8.s = OkS /\ i8.d = PadL(i4.d, 8, IF i4.d[1] >= 128 THEN 255 ELSE 0)
  /\ u4.s = OkS => u8.s = OkS /\ u8.d = PadL(u4.d, 8, 0)
  /\ u4.s = OkS => (i4.s = OkS <=> u4.d[1] < 128) /\ (i4.s = OkS => i4.d = u4.d)
  /\ (i4.s = OkS /\ ~Negative(x)) => u4.s = OkS
  /\ Negative(x) => u4 = Err("IntegerNegative") /\ u8 = Err("IntegerNegative")
  \* leading sign octets do not change a value that is not negative
  /\ ~Negative(x) => SignedVal(<<0>> \o x, 4) = i4 /\ UnsignedVal(<<0>> \o x, 8) = u8
  /\ x # << >> => MinTwos(MinTwos(x)) = MinTwos(x)
  /\ i4.s = OkS /\ x # << >> => MinTwos(i4.d) = MinTwos(x)
  /\ u8.s = OkS => MinUnsigned(u8.d) = MinUnsigned(x)

\* C09: a native integer parser is the INTEGER parser followed by the conversion
Law09(x) == \A ru \in Rls : \A k \in {"i32", "i64", "u32", "u64"} :
  LET r == P(<<k>>, ru, x, 1, Len(x)) o == P(<<"t", 2>>, ru, x, 1, Len(x)) IN
  r.s = OkS => /\ o.s = OkS /\ o.nx = r.nx
               /\ r.v.d = Acc(k, o.v).d
\* and conversely when the element is primitive
Law09b(x) == \A ru \in Rls : \A k \in {"i32", "i64", "u32", "u64"} :
  LET r == P(<<k>>, ru, x, 1, Len(x)) o == P(<<"t", 2>>, ru, x, 1, Len(x)) IN
  (o.s = OkS /\ o.v.p = 0 /\ o.v.c = 0 /\ Acc(k, o.v).s = OkS) => r.s = OkS

\* C10: the number of a BIT STRING is made of its bits
Law10(x) == \A pad \in 0..7 :
  LET v == BitsVal(pad, x, 8) n == Len(x) * 8 - pad IN
  /\ (v.s = OkS) <=> (n >= 0 /\ n <= 64)
  /\ v.s = OkS => /\ \A k \in 0..(n - 1) : BitSet(x, k) = BitSet(v.d, 64 - n + k)
                  /\ \A k \in 0..(63 - n) : ~BitSet(v.d, k)
  /\ ~BitSet(x, Len(x) * 8) /\ ~BitSet(x, Len(x) * 8 + 9)

\* C11: repertoires are closed under concatenation, and their inclusions
StrOk(k, x) == IF k = "utf8" THEN Utf8Ok(x, 1, Len(x)) ELSE CharsOk(x, 1, Len(x), CharsOf(k))
Law11(x) ==
  /\ \A k \in StringKinds : \A j \in 0..Len(x) :
       (StrOk(k, SubSeq(x, 1, j)) /\ StrOk(k, SubSeq(x, j + 1, Len(x)))) => StrOk(k, x)
  /\ StrOk("numeric", x) => StrOk("printable", x)
  /\ StrOk("printable", x) => StrOk("visible", x)
  /\ StrOk("visible", x) => StrOk("ia5", x)
  /\ StrOk("ia5", x) => StrOk("utf8", x)
  \* UTF-8: the characters delimited by lead bytes, one by one
  /\ StrOk("utf8", x) <=> U8Chars(x)

\* C12: a time that was decoded is re-encoded to a string that decodes to the same time
Law12(x) ==
  /\ LET t == UtcTime(x, 1, Len(x)) IN
     t.s = OkS => LET y == EncTime(t.t, TRUE) IN UtcTime(y, 1, Len(y)) = t
  /\ LET t == GenTime(x, 1, Len(x)) IN
     (t.s = OkS /\ t.t[7] <= 999) => LET y == EncTime(t.t, FALSE) IN GenTime(y, 1, Len(y)) = t
  /\ LET t == GenTime(x, 1, Len(x)) IN
     t.s = OkS => t.t[2] \in 0..12 /\ t.t[3] \in 0..31 /\ t.t[4] \in 0..23 /\ t.t[5] \in 0..59 /\ t.t[6] \in 0..59

\* C13, C14: decoding what is serialized gives the object back, and serializing is a normal form
Law13(x) == LET r == Full(x, "ber") IN
  r.s = OkS => LET y == EncObj(r.v) q == Full(y, "ber") IN
    /\ q.s = OkS /\ q.nx = Len(y) + 1 /\ SameValue(q.v, r.v)
Law14(x) == LET r == Full(x, "ber") IN
  r.s = OkS => LET y == EncObj(r.v) q == Full(y, "ber") IN
    /\ EncObj(q.v) = y
    \* a DER input with minimal header octets is already what the serializer writes
    /\ (Full(x, "der").s = OkS /\ All(r.v, LAMBDA o : o.k \notin {"enum", "utctime", "gentime"}) /\ MinHdrs(x, 1, r.nx - 1))
         => y = SubSeq(x, 1, r.nx - 1)

\* C15: a SEQUENCE OF of anything holds what the generic decoder finds
Law15(x) == \A ru \in Rls :
  LET r == P(<<"seqof", <<"any">>>>, ru, x, 1, Len(x)) g == Full(x, ru) IN
  /\ (r.s = OkS /\ AnyEl(x, 1, Len(x)).h.cls = 0 /\ g.s = OkS) => r.v.ch = g.v.ch /\ r.nx = g.nx
  /\ (g.s = OkS /\ g.v.k = "seq") => r.s = OkS

\* C16: a defined sequence of n elements is a sequence of n elements
Law16(x) == \A ru \in Rls :
  LET r == P(<<"seqdef", <<"any">>, <<"any">>>>, ru, x, 1, Len(x))
      o == P(<<"seqof", <<"any">>>>, ru, x, 1, Len(x)) IN
  /\ (o.s = OkS /\ Len(o.v.ch) >= 2) => r.s = OkS /\ r.v.ch = SubSeq(o.v.ch, 1, 2) /\ r.nx = o.nx
  /\ (o.s = OkS /\ Len(o.v.ch) < 2) => r.s # OkS

\* C17: tagging what was decoded, and reading it back through the tag
Law17(x) == LET r == Full(x, "ber") IN
  r.s = OkS =>
    \A cls \in {1, 2} : \A tn \in {0, 31} :
      LET y == EncExplicit(cls, TagOf(tn), r.v)
          z == EncImplicit(cls, TagOf(tn), r.v)
          e == P(<<"expl", tn, <<"any">>>>, "ber", y, 1, Len(y))
          i == P(<<"impl", tn, TagNum(r.v.t)>>, "ber", z, 1, Len(z))
      IN /\ (ODepth(r.v) < MaxRecursion) => e.s = OkS /\ SameValue(e.v.ch[1], r.v) /\ e.v.n = <<cls>> /\ e.nx = Len(y) + 1
         /\ (r.v.c = 0 /\ TagNum(r.v.t) < 65536) =>
              /\ i.s = OkS /\ i.nx = Len(z) + 1
              /\ <<i.v.k, i.v.n, i.v.d>> = <<r.v.k, r.v.n, r.v.d>> /\ Len(i.v.ch) = Len(r.v.ch)
         \* another tag is refused
         /\ P(<<"expl", tn + 1, <<"any">>>>, "ber", y, 1, Len(y)).s # OkS
         /\ P(<<"impl", tn + 1, 4>>, "ber", z, 1, Len(z)).s # OkS

\* C18: optional never fails; it is present exactly when the element parses
Law18(x) == \A ru \in Rls : \A e \in Exprs :
  LET o == P(<<"opt", e>>, ru, x, 1, Len(x)) r == P(e, ru, x, 1, Len(x)) IN
  e[1] \notin {"u32", "slice", "seqofv"} =>
  /\ o.s = OkS
  /\ IF r.s = OkS THEN o.nx = r.nx /\ o.v.ch = <<r.v>> ELSE o.nx = 1 /\ o.v.ch = << >>

\* C19: a typed parser is the generic decoder restricted to its tag
Law19(x) == \A ru \in Rls :
  LET g == Full(x, ru) IN
  /\ (g.s = OkS /\ g.v.c = 0 /\ TagNum(g.v.t) < 31) =>
       P(<<"t", TagNum(g.v.t)>>, ru, x, 1, Len(x)) = g
  /\ \A tn \in {1, 2, 4, 16} :
       LET r == P(<<"t", tn>>, ru, x, 1, Len(x)) IN r.s = OkS => r.v.t = TagOf(tn)

\* C20: one callback per object, parents first
Law20(x) == LET r == Full(x, "ber") IN r.s = OkS => Len(SelectSeq(Walk(r.v, 0), LAMBDA c : c.e = "ber")) = Count(r.v)

\* C21
Law21(x) == LET r == Full(x, "ber") IN
  r.s = OkS => /\ IterRef(r.v) = r.v.ch
               /\ (r.v.k \notin {"seq", "set"} => IterInto(r.v) = <<r.v>>)
               /\ Len(SelectSeq(TagTests(r.v), LAMBDA b : b = 1)) <= 1
               /\ Cardinality({nm \in OtherAccessors \ {"oid_val", "bitstring_ref", "bitslice"} : Acc(nm, r.v).s = OkS}) <= 2

\* C22: without recursion one line; showing headers only adds text
Law22(x) == LET r == Full(x, "ber") IN
  r.s = OkS =>
    LET t(re, hd) == PrettyText(r.v, 0, 2, re, hd) IN
    /\ Len(t(TRUE, FALSE)) <= Len(t(TRUE, TRUE)) /\ Len(t(FALSE, FALSE)) <= Len(t(TRUE, FALSE))
    /\ Len(PrettyText(r.v, 3, 2, FALSE, FALSE)) = Len(t(FALSE, FALSE)) + 3
    /\ FlagHist(<<"h", "H", "R", "r">>, 1, 1, 0) = << <<1, 1>>, <<1, 0>>, <<0, 0>>, <<1, 0>> >>

\* C23: decoding an encoded object identifier gives the arcs back (x read as arcs)
Law23(x) == LET as == [k \in 1..Len(x) |-> IF x[k] = 0 THEN << >> ELSE IF x[k] < 128 THEN <<x[k]>> ELSE <<1 + (x[k] % 127), x[k] \div 2, 0>>] IN
  /\ OidArcs(EncOid(as, TRUE), TRUE) = as
  /\ (Len(as) >= 2 /\ OidEncodable(as, FALSE) /\ EncOid(as, FALSE) # <<0>>) => OidArcs(EncOid(as, FALSE), FALSE) = as

\* C24: reading the contents of an element as the type of its tag is decoding the element
Law24(x) == LET g == Full(x, "ber") a == AnyEl(x, 1, Len(x)) IN
  (g.s = OkS /\ g.v.c = 0 /\ TagNum(g.v.t) < 65536) =>
    LET r == BerContentAs(x, [a.h EXCEPT !.len = IF @ = Indef THEN Indef ELSE @], a.nx - 1, MaxRecursion) IN
    r.s = OkS /\ Obj(a.h, r.c) = g.v

\* C25: a header that was read is written in its shortest form, and reads back the same
Law25(x) == LET h == Hdr(x, 1, Len(x), "ber") IN
  h.s = OkS => LET y == EncHeader(h.cls, h.con, h.tag, h.len = Indef, h.lb)
                   q == Hdr(y, 1, Len(y), "ber") IN
    /\ q.s = OkS /\ Len(y) <= h.lo - 1 /\ q.lo = Len(y) + 1
    /\ <<q.cls, q.con, q.tag, q.len, q.lb>> = <<h.cls, h.con, h.tag, h.len, h.lb>>
    /\ (Hdr(x, 1, Len(x), "der").s = OkS <=> h.len # Indef)

\* C27: an error is final: more input does not turn it into success or a request for input
Law27(x) == \A ru \in Rls : LET r == Full(x, ru) IN
  /\ (r.s = ErrS /\ r.e # "InvalidTag") => \A y \in {<<0>>, <<2>>, <<255>>, <<0, 0>>} : Full(x \o y, ru).s = ErrS
  /\ r.s = IncS => \A m \in 0..(Len(x) - 1) : Full(SubSeq(x, 1, m), ru).s # OkS

\* C28: objects built from decoded contents are encoded as that contents under its universal tag
Law28(x) == LET r == Full(x, "ber") IN
  (r.s = OkS /\ r.v.c = 0 /\ r.v.k # "unknown") =>
     LET o == FromObj([s |-> OkS, k |-> r.v.k, n |-> r.v.n, d |-> r.v.d, o |-> r.v.o, ch |-> r.v.ch], r.v.t)
         q == Full(EncObj(o), "ber") IN
     /\ o.t = r.v.t /\ o.c = 0 /\ o.p = B01(r.v.k \in {"seq", "set"})
     /\ q.s = OkS /\ q.v.k = r.v.k /\ q.v.d = r.v.d /\ q.v.n = r.v.n

\* C29: each user parser is called once per element, in order, on what is left of the contents; its
\* errors come back as they are; being watched changes nothing
Evs(n) == <<"note", 1, <<n>>>>
Law29(x) ==
  \A ru \in Rls :
    LET n == Len(x) c == Container(ru, x, 1, n) Run(e) == U(e, ru, x, 1, n, << >>) IN
    /\ \A op \in {"seqofv", "setofv"} :
         LET u == Run(<<op, Evs("any")>>) p == P(<<op, <<"any">>>>, ru, x, 1, n)
             one == Run(<<op, <<"utake", 1, 1>>>>)
             err == Run(<<op, <<"ufail", 1, "err", 7>>>>)
             cnt == Run(<<op, <<"ucount", 1, 1, 2, 5>>>>)
         IN /\ u[1] = p
            /\ p.s = OkS =>
                 /\ Len(u[2]) = Len(p.v.ch)
                 /\ \A j \in 1..Len(u[2]) : u[2][j][2] + u[2][j][3] = c.hi
                 /\ \A j \in 2..Len(u[2]) : u[2][j][2] > u[2][j - 1][2]
            /\ one[1].s = OkS => one[2] = [j \in 1..(c.hi - c.lo + 1) |-> <<1, c.lo + j - 2, c.hi - c.lo + 2 - j>>]
            /\ one[2] # << >> => (err[1] = [s |-> FailS, e |-> UserErr(7)] /\ Len(err[2]) = 1)
            /\ Len(one[2]) > 2 => (cnt[1].e = UserErr(5) /\ Len(cnt[2]) = 3)
    /\ LET b == Run(<<"cont", 3>>) IN
       IF c.s = OkS THEN b[1].s = OkS /\ b[1].nx = c.nx /\ Len(b[2]) = 1 ELSE b[2] = << >>
    /\ \A how \in {"err", "fail", "inc"} :
         LET b == Run(<<"cont", 3, <<"ufail", 4, how, 2>>>>) IN
         (c.s = OkS /\ c.hi >= c.lo) =>
           /\ b[1].s = (CASE how = "err" -> ErrS [] how = "fail" -> FailS [] OTHER -> IncS)
           /\ how # "inc" => b[1].e = UserErr(2)
    /\ LET o == Run(<<"opt", <<"expl", 0, Evs("any")>>>>) IN o[1].s = OkS
=============================================================================
