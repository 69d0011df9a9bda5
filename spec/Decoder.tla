------------------------------ MODULE Decoder -------------------------------
(* The BER and DER decoders, as recursive operators.  DecoderMachine.tla     *)
(* gives the same decoder as a transition system and TLC checks that the two *)
(* agree.                                                                    *)
EXTENDS Content

MaxRecursion == 50

\* attach a header to decoded contents
Obj(h, c) == [c |-> h.cls, p |-> h.con, t |-> h.tag, len |-> h.len, raw |-> h.raw,
              k |-> c.k, n |-> c.n, d |-> c.d, o |-> c.o, ch |-> c.ch]

Ok(v, nx) == [s |-> OkS, v |-> v, nx |-> nx]
AsError(r) == IF r.s = IncS THEN Err("Incomplete") ELSE r

----------------------------------------------------------------------------
(* End of an element: Skip returns the index after the contents.             *)
IsEoc(h) == h.len = 0 /\ h.tn = 0 /\ h.cls = Universal /\ h.con = 0

RECURSIVE Skip(_, _, _, _), SkipLoop(_, _, _, _)
\* [s, nx, eoc, hi]: nx index after the element, hi last content byte
Skip(s, h, e, depth) ==
  IF depth = 0 THEN Err("BerMaxDepth")
  ELSE IF h.len # Indef
  THEN IF IsEoc(h) THEN [s |-> OkS, nx |-> h.lo, hi |-> h.lo - 1, eoc |-> TRUE]
       ELSE IF h.len = Huge \/ h.lo + h.len - 1 > e THEN Inc
       ELSE [s |-> OkS, nx |-> h.lo + h.len, hi |-> h.lo + h.len - 1, eoc |-> FALSE]
  ELSE IF h.con = 0 THEN Err("ConstructExpected")
  ELSE SkipLoop(s, h.lo, e, depth)

SkipLoop(s, i, e, depth) ==
  LET h2 == Hdr(s, i, e, "ber") IN
  IF h2.s # OkS THEN h2
  ELSE LET r == Skip(s, h2, e, depth - 1) IN
    IF r.s # OkS THEN r
    ELSE IF r.eoc
         THEN IF r.nx - i # 2 THEN Err("InvalidLength")
              ELSE [s |-> OkS, nx |-> r.nx, hi |-> i - 1, eoc |-> FALSE]
    ELSE SkipLoop(s, r.nx, e, depth)

\* asn1-rs's own walk over an indefinite element, used by its integer parsers: any element of tag
\* number 0 without contents ends it (DESIGN, D8)
RECURSIVE SkipForeign(_, _, _, _), SkipForeignLoop(_, _, _, _)
SkipForeign(s, h, e, depth) ==
  IF depth = 0 THEN Err("BerMaxDepth")
  ELSE IF h.len # Indef
  THEN IF h.len = 0 /\ h.tn = 0 THEN [s |-> OkS, nx |-> h.lo, hi |-> h.lo - 1, eoc |-> TRUE]
       ELSE IF h.len = Huge \/ h.lo + h.len - 1 > e THEN Inc
       ELSE [s |-> OkS, nx |-> h.lo + h.len, hi |-> h.lo + h.len - 1, eoc |-> FALSE]
  ELSE IF h.con = 0 THEN Err("ConstructExpected")
  ELSE SkipForeignLoop(s, h.lo, e, depth)

SkipForeignLoop(s, i, e, depth) ==
  LET h2 == Hdr(s, i, e, "ber") IN
  IF h2.s # OkS THEN h2
  ELSE LET r == SkipForeign(s, h2, e, depth - 1) IN
    IF r.s # OkS THEN r
    ELSE IF r.eoc THEN [s |-> OkS, nx |-> r.nx, hi |-> r.nx - 3, eoc |-> FALSE]
    ELSE SkipForeignLoop(s, r.nx, e, depth)

\* one BER element: [s, h, lo, hi, nx]
AnyEl(s, i, e) ==
  LET h == Hdr(s, i, e, "ber") IN
  IF h.s # OkS THEN h
  ELSE LET r == Skip(s, h, e, MaxRecursion) IN
    IF r.s # OkS THEN r
    ELSE [s |-> OkS, h |-> h, lo |-> h.lo, hi |-> r.hi, nx |-> r.nx]

----------------------------------------------------------------------------
(* Recursive BER decoding *)
RECURSIVE BerContent(_, _, _, _, _, _, _), BerItems(_, _, _, _, _)

\* value of an element whose contents octets are lo..hi, class taken as cls
BerContent(s, cls, h, lo, hi, depth, len) ==
  IF depth = 0 THEN Err("BerMaxDepth")
  ELSE IF cls # Universal
  THEN Val("unknown", <<cls, h.con>>, SubSeq(s, lo, hi), Off(lo, hi))
  ELSE IF h.tn \in {16, 17}
  THEN IF h.con = 0 THEN Err("ConstructExpected")
       ELSE LET r == BerItems(s, lo, hi, depth - 1, << >>) IN
            IF r.s # OkS THEN AsError(r)
            ELSE [s |-> OkS, k |-> KindOf(h.tn), n |-> << >>, d |-> << >>, o |-> -2, ch |-> r.v]
  ELSE PrimContent(s, h.tn, len, h.con, lo, hi)

BerItems(s, i, e, depth, acc) ==
  IF i > e THEN [s |-> OkS, v |-> acc]
  ELSE LET a == AnyEl(s, i, e) IN
    IF a.s # OkS THEN a
    ELSE LET c == BerContent(s, a.h.cls, a.h, a.lo, a.hi, depth, a.h.len) IN
      IF c.s # OkS THEN c
      ELSE BerItems(s, a.nx, e, depth, Append(acc, Obj(a.h, c)))

\* parse_ber_recursive / parse_ber
ParseBer(s, i, e, depth) ==
  IF depth = 0 THEN Err("BerMaxDepth")
  ELSE LET a == AnyEl(s, i, e) IN
    IF a.s # OkS THEN a
    ELSE LET c == BerContent(s, a.h.cls, a.h, a.lo, a.hi, depth, a.h.len) IN
      IF c.s # OkS THEN c ELSE Ok(Obj(a.h, c), a.nx)

\* parse_ber_any_with_tag_r
ParseBerTagR(s, i, e, tag, depth) ==
  IF depth = 0 THEN Err("BerMaxDepth")
  ELSE LET a == AnyEl(s, i, e) IN
    IF a.s # OkS THEN a
    ELSE IF a.h.tag # tag THEN Err("UnexpectedTag")
    ELSE LET c == BerContent(s, a.h.cls, a.h, a.lo, a.hi, depth, a.h.len) IN
      IF c.s # OkS THEN c ELSE Ok(Obj(a.h, c), a.nx)

\* ber_read_element_content_as: contents read as the universal type tn.
\* h carries con and lo; returns contents and nx
BerContentAs(s, h, e, depth) ==
  IF h.len # Indef /\ (h.len = Huge \/ h.lo + h.len - 1 > e)
  THEN IF Len(h.lb) > 4 THEN Err("InvalidLength") ELSE Inc
  ELSE LET r == Skip(s, [h EXCEPT !.cls = Universal], e, depth) IN
    IF r.s # OkS THEN r
    ELSE LET c == BerContent(s, Universal, h, h.lo, r.hi, depth, h.len) IN
      IF c.s # OkS THEN c
      ELSE [s |-> OkS, c |-> c, nx |-> r.nx]

\* parse_ber_with_tag and parse_ber_<type>
ParseBerTag(s, i, e, tag) ==
  LET h == Hdr(s, i, e, "ber") IN
  IF h.s # OkS THEN h
  ELSE IF h.tag # tag THEN Err("UnexpectedTag")
  ELSE LET r == BerContentAs(s, h, e, MaxRecursion) IN
    IF r.s # OkS THEN r ELSE Ok(Obj(h, r.c), r.nx)

----------------------------------------------------------------------------
(* Recursive DER decoding *)
RECURSIVE DerContentAs(_, _, _, _), DerItems(_, _, _, _, _), ParseDer(_, _, _, _), DerElement(_, _, _, _)

DerContentAs(s, h, e, depth) ==
  IF h.len = Indef THEN Err("IndefiniteLengthUnexpected")
  ELSE IF h.len = Huge \/ h.lo + h.len - 1 > e THEN Inc
  ELSE LET ck == DerConstraint(s, h.tn, h.len, h.con, h.lo)
           hi == h.lo + h.len - 1
  IN
  IF ck # "" THEN Err(ck)
  ELSE IF h.tn = 3
  THEN [s |-> OkS, c |-> Val("bits", <<s[h.lo]>>, SubSeq(s, h.lo + 1, hi), Off(h.lo + 1, hi)),
        nx |-> hi + 1]
  ELSE IF h.tn \in {16, 17} /\ h.con = 1
  THEN IF depth = 0 THEN Err("BerMaxDepth")
       ELSE LET r == DerItems(s, h.lo, hi, depth - 1, << >>) IN
            IF r.s # OkS THEN AsError(r)
            ELSE [s |-> OkS, nx |-> hi + 1,
                  c |-> [s |-> OkS, k |-> KindOf(h.tn), n |-> << >>, d |-> << >>, o |-> -2,
                         ch |-> r.v]]
  ELSE BerContentAs(s, h, e, depth)

\* der_read_element_content: contents after a header that was already read
DerElement(s, h, e, depth) ==
  IF h.cls # Universal
  THEN LET r == Skip(s, h, e, depth) IN
       IF r.s # OkS THEN r
       ELSE Ok(Obj(h, Val("unknown", <<h.cls, h.con>>, SubSeq(s, h.lo, r.hi), Off(h.lo, r.hi))),
               r.nx)
  ELSE LET r == DerContentAs(s, h, e, depth) IN
       IF r.s # OkS THEN r ELSE Ok(Obj(h, r.c), r.nx)

ParseDer(s, i, e, depth) ==
  IF depth = 0 THEN Err("BerMaxDepth")
  ELSE LET h == Hdr(s, i, e, "der") IN
    IF h.s # OkS THEN h
    ELSE IF Len(h.lb) > 4 THEN Err("InvalidLength")
    ELSE DerElement(s, h, e, depth)

DerItems(s, i, e, depth, acc) ==
  IF i > e THEN [s |-> OkS, v |-> acc]
  ELSE LET r == ParseDer(s, i, e, depth) IN
    IF r.s # OkS THEN r
    ELSE DerItems(s, r.nx, e, depth, Append(acc, r.v))

ParseDerTag(s, i, e, tag) ==
  LET h == Hdr(s, i, e, "der") IN
  IF h.s # OkS THEN h
  ELSE IF h.tag # tag THEN Err("UnexpectedTag")
  ELSE LET r == DerContentAs(s, h, e, MaxRecursion) IN
    IF r.s # OkS THEN r ELSE Ok(Obj(h, r.c), r.nx)

=============================================================================
