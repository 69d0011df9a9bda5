---------------------------- MODULE Combinators -----------------------------
(* Parser expressions: what parse_{ber,der}_{sequence,set}_{of,defined},      *)
(* containers, explicit / implicit tagging, optional, slice and the native    *)
(* integer parsers mean, for arbitrary nesting.                               *)
(*                                                                            *)
(* An expression is a tuple <<name, args...>>; P gives its result on s[i..e]. *)
EXTENDS Decoder

\* object built from contents only (no class, default flags, no raw tag)
Built(tn, con, c) == [c |-> 0, p |-> con, t |-> TagOf(tn), len |-> 0, raw |-> << >>,
                      k |-> c.k, n |-> c.n, d |-> c.d, o |-> c.o, ch |-> c.ch]
Group(k, items) == [s |-> OkS, k |-> k, n |-> << >>, d |-> << >>, o |-> -2, ch |-> items]
FromSeq(items) == Built(16, 1, Group("seq", items))
FromSet(items) == Built(17, 1, Group("set", items))
NoneObj == Built(0, 0, Group("opt", << >>))

----------------------------------------------------------------------------
(* INTEGER contents as native integers: n = 4 or 8 bytes                     *)
Negative(d) == Len(d) > 0 /\ d[1] >= 128

\* signed: exact value sign-extended to n bytes, or an error
SignedVal(d, n) ==
  IF Negative(d)
  THEN IF Len(d) > n THEN Err("IntegerTooLarge") ELSE [s |-> OkS, d |-> PadL(d, n, 255)]
  ELSE LET t == Trim(d) IN
       IF Len(t) > n THEN Err("IntegerTooLarge")
       ELSE LET w == PadL(t, n, 0) IN
            IF w[1] >= 128 THEN Err("IntegerTooLarge") ELSE [s |-> OkS, d |-> w]

UnsignedVal(d, n) ==
  IF Negative(d) THEN Err("IntegerNegative")
  ELSE LET t == Trim(d) IN
       IF Len(t) > n THEN Err("IntegerTooLarge") ELSE [s |-> OkS, d |-> PadL(t, n, 0)]

NumObj(d) == [k |-> "num", d |-> d]

ParseNum(rules, kind, s, i, e) ==
  LET h == Hdr(s, i, e, rules) IN
  IF h.s # OkS THEN h
  ELSE LET r == SkipForeign(s, h, e, MaxRecursion) IN
    IF r.s # OkS THEN r
    ELSE IF rules = "ber" /\ h.tn # 2 THEN Err("UnexpectedTag")
    ELSE IF h.con = 1 THEN Err("ConstructUnexpected")
    ELSE LET d == SubSeq(s, h.lo, r.hi)
             ck == IF rules = "der" THEN DerConstraint(s, 2, Len(d), 0, h.lo) ELSE ""
             v == CASE kind = "i32" -> SignedVal(d, 4) [] kind = "i64" -> SignedVal(d, 8)
                    [] kind = "u32" -> UnsignedVal(d, 4) [] kind = "u64" -> UnsignedVal(d, 8)
         IN IF ck # "" THEN Err(ck)
            ELSE IF h.tn # 2 THEN Err("UnexpectedTag")
            ELSE IF v.s # OkS THEN v ELSE Ok(NumObj(v.d), r.nx)

----------------------------------------------------------------------------
(* A container: header, then exactly its contents lo..hi; nx is after it     *)
Container(rules, s, i, e) ==
  LET h == Hdr(s, i, e, rules) IN
  IF h.s # OkS THEN h
  ELSE IF h.len = Indef
  THEN LET r == Skip(s, h, e, MaxRecursion) IN
       IF r.s # OkS THEN r ELSE [s |-> OkS, h |-> h, lo |-> h.lo, hi |-> r.hi, nx |-> r.nx]
  ELSE IF h.len = Huge \/ h.lo + h.len - 1 > e THEN Err("NomError")
  ELSE [s |-> OkS, h |-> h, lo |-> h.lo, hi |-> h.lo + h.len - 1, nx |-> h.lo + h.len]

AsFailure(r) == IF r.s = ErrS THEN [s |-> FailS, e |-> r.e] ELSE r

RECURSIVE P(_, _, _, _, _), Many(_, _, _, _, _, _), Each(_, _, _, _, _, _, _)

\* elements until the contents are exhausted
Many(ex, rules, s, i, e, acc) ==
  LET r == P(ex, rules, s, i, e) IN
  IF r.s = IncS THEN IF i > e THEN [s |-> OkS, v |-> acc] ELSE Err("NomError")
  ELSE IF r.s # OkS THEN AsFailure(r)
  ELSE IF r.nx = i THEN Err("NomError")     \* an element parser that consumes nothing
  ELSE Many(ex, rules, s, r.nx, e, Append(acc, r.v))

\* a fixed list of element parsers, in order; unparsed contents are ignored
Each(exs, k, rules, s, i, e, acc) ==
  IF k > Len(exs) THEN [s |-> OkS, v |-> acc]
  ELSE LET r == P(exs[k], rules, s, i, e) IN
    IF r.s # OkS THEN r
    ELSE Each(exs, k + 1, rules, s, r.nx, e, Append(acc, r.v))

SliceObj(s, lo, hi) == [k |-> "slice", d |-> SubSeq(s, lo, hi), o |-> Off(lo, hi)]

P(ex, rules, s, i, e) ==
  LET op == ex[1] IN
  CASE op = "any" -> IF rules = "ber" THEN ParseBer(s, i, e, MaxRecursion)
                     ELSE ParseDer(s, i, e, MaxRecursion)
    [] op = "t" -> IF rules = "ber" THEN ParseBerTag(s, i, e, TagOf(ex[2]))
                   ELSE ParseDerTag(s, i, e, TagOf(ex[2]))
    [] op = "rec" -> IF rules = "ber" THEN ParseBer(s, i, e, ex[2])
                     ELSE ParseDer(s, i, e, ex[2])
    [] op = "ty" -> LET tg == TagOf(IF ex[2] = "visibleold" THEN 26 ELSE TagNumOfKind(ex[2])) IN
                    IF rules = "ber" THEN ParseBerTag(s, i, e, tg) ELSE ParseDerTag(s, i, e, tg)
    [] op \in {"i32", "i64", "u32", "u64"} -> ParseNum(rules, op, s, i, e)
    [] op \in {"seqof", "seqofv", "setof", "setofv"} ->
         LET c == Container(rules, s, i, e)
             isSeq == op \in {"seqof", "seqofv"}
         IN IF c.s # OkS THEN c
            ELSE IF c.h.tag # TagOf(IF isSeq THEN 16 ELSE 17) THEN Err("UnexpectedTag")
            ELSE LET r == Many(ex[2], rules, s, c.lo, c.hi, << >>) IN
                 IF r.s # OkS THEN r
                 ELSE Ok(IF isSeq THEN FromSeq(r.v) ELSE FromSet(r.v), c.nx)
    [] op \in {"seqdef", "seqdefg", "setdef", "setdefg"} ->
         LET c == Container(rules, s, i, e)
             isSeq == op \in {"seqdef", "seqdefg"}
         IN IF c.s # OkS THEN c
            ELSE IF c.h.tag # TagOf(IF isSeq THEN 16 ELSE 17) THEN Err("UnexpectedTag")
            ELSE LET r == Each(ex, 2, rules, s, c.lo, c.hi, << >>) IN
                 IF r.s # OkS THEN r
                 ELSE IF op \in {"seqdefg", "setdefg"} THEN Ok(Obj(c.h, Group("seq", r.v)), c.nx)
                 ELSE Ok(IF isSeq THEN FromSeq(r.v) ELSE FromSet(r.v), c.nx)
    [] op = "cont" ->
         LET c == Container(rules, s, i, e) IN
         IF c.s # OkS THEN c
         ELSE LET r == Each(ex, 2, rules, s, c.lo, c.hi, << >>) IN
              IF r.s # OkS THEN r ELSE Ok(Obj(c.h, Group("seq", r.v)), c.nx)
    [] op \in {"expl", "explg"} ->
         LET c == Container(rules, s, i, e) IN
         IF c.s # OkS THEN c
         ELSE IF c.h.cls = Universal THEN Err("UnexpectedClass")
         ELSE IF c.h.tag # TagOf(ex[2]) THEN Err("UnexpectedTag")
         ELSE IF c.h.con = 0 THEN Err("ConstructExpected")
         ELSE LET r == P(ex[3], rules, s, c.lo, c.hi) IN
              IF r.s # OkS THEN r
              ELSE Ok(Obj(c.h, [Group("tagged", <<r.v>>) EXCEPT !.n = <<c.h.cls>>, !.d = c.h.tag,
                                                                !.o = -1]), c.nx)
    [] op \in {"impl", "implg", "implold"} ->
         LET c == Container(rules, s, i, e) IN
         IF c.s # OkS THEN c
         ELSE IF c.h.tag # TagOf(ex[2]) THEN Err("UnexpectedTag")
         ELSE LET n == c.hi - c.lo + 1
                  \* BER: the header handed to the contents parser has the contents length
                  h == [c.h EXCEPT !.tag = TagOf(ex[3]), !.tn = ex[3], !.len = n,
                                   !.lb = NatBytes(n)]
                  r == IF rules = "ber" THEN BerContentAs(s, h, c.hi, MaxRecursion)
                       ELSE DerContentAs(s, h, c.hi, MaxRecursion)
              IN IF r.s # OkS THEN r ELSE Ok(Obj([c.h EXCEPT !.len = n], r.c), c.nx)
    [] op = "opt" ->
         LET r == P(ex[2], rules, s, i, e) IN
         IF r.s # OkS THEN Ok(NoneObj, i)
         ELSE Ok([r.v EXCEPT !.k = "opt", !.n = << >>, !.d = << >>, !.o = -2, !.ch = <<r.v>>], r.nx)
    [] op = "explopt" ->
         LET r == P(<<"expl", ex[2], ex[3]>>, rules, s, i, e) IN
         IF r.s # OkS THEN Ok(NoneObj, i)
         ELSE Ok([r.v EXCEPT !.k = "opt", !.n = << >>, !.d = << >>, !.o = -2, !.ch = <<r.v>>], r.nx)
    [] op = "slice" ->
         LET c == Container(rules, s, i, e) IN
         IF c.s # OkS THEN c
         ELSE IF c.h.tag # TagOf(ex[2]) THEN Err("UnexpectedTag")
         ELSE Ok(SliceObj(s, c.lo, c.hi), c.nx)
    [] op = "failure" -> [s |-> FailS, e |-> "Unsupported"]
    [] op = "nothing" -> Ok(NoneObj, i)

=============================================================================
