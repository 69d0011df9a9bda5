-------------------------------- MODULE Oid ---------------------------------
(* Object identifiers: base-128 sub-identifiers (X.690 8.19, 8.20).  Arcs can *)
(* be arbitrarily large, so an arc is a sequence of base-128 digits without   *)
(* leading zeroes (the empty sequence is 0).                                  *)
EXTENDS Accessors

TrimD(ds) == SubSeq(ds, FirstNot(ds, 1, Len(ds), 0), Len(ds))

\* decode: the arcs of the contents octets d from index i; the last arc may lack its end marker
RECURSIVE Arcs(_, _, _, _)
Arcs(d, i, cur, acc) ==
  IF i > Len(d) THEN IF cur = << >> THEN acc ELSE Append(acc, TrimD(cur))
  ELSE IF d[i] >= 128 THEN Arcs(d, i + 1, Append(cur, d[i] % 128), acc)
  ELSE Arcs(d, i + 1, << >>, Append(acc, TrimD(Append(cur, d[i]))))

SmallArc(n) == IF n = 0 THEN << >> ELSE IF n < 128 THEN <<n>> ELSE << n \div 128, n % 128 >>

OidArcs(d, relative) ==
  IF relative THEN Arcs(d, 1, << >>, << >>)
  ELSE IF d = << >> THEN << >>
  ELSE IF d = <<0>> THEN << << >> >>
  ELSE << SmallArc(d[1] \div 40), SmallArc(d[1] % 40) >> \o Arcs(d, 2, << >>, << >>)

\* encode
EncArc(a) ==
  IF a = << >> THEN <<0>>
  ELSE [k \in 1..Len(a) |-> IF k = Len(a) THEN a[k] ELSE a[k] + 128]
RECURSIVE EncArcs(_, _)
EncArcs(as, k) == IF k > Len(as) THEN << >> ELSE EncArc(as[k]) \o EncArcs(as, k + 1)

ArcVal(a) == CASE Len(a) = 0 -> 0 [] Len(a) = 1 -> a[1] [] OTHER -> 128   \* 128: 128 or more

\* accepted by the macro; everything else is refused at compile time (deviation D6: X.690 would
\* also allow a second arc of 40 or more below 2, and the macro allows first arcs 3..6)
OidEncodable(as, relative) ==
  \/ relative
  \/ as = << << >> >>
  \/ Len(as) >= 2 /\ ArcVal(as[1]) < 7 /\ ArcVal(as[2]) < 40
     /\ 40 * ArcVal(as[1]) + ArcVal(as[2]) < 256     \* they share one octet

EncOid(as, relative) ==
  IF relative THEN EncArcs(as, 1)
  ELSE IF as = << << >> >> THEN <<0>>
  ELSE << (40 * ArcVal(as[1])) + ArcVal(as[2]) >> \o EncArcs(as, 3)

----------------------------------------------------------------------------
(* decimal text of an arc: repeated division by ten *)
RECURSIVE DivTen(_, _, _, _)
\* <<quotient digits, remainder>>
DivTen(a, k, rem, q) ==
  IF k > Len(a) THEN << TrimD(q), rem >>
  ELSE LET v == (rem * 128) + a[k] IN DivTen(a, k + 1, v % 10, Append(q, v \div 10))

RECURSIVE ArcText(_)
ArcText(a) ==
  IF a = << >> THEN <<48>>
  ELSE LET r == DivTen(a, 1, 0, << >>) IN
       IF r[1] = << >> THEN << 48 + r[2] >> ELSE Append(ArcText(r[1]), 48 + r[2])

RECURSIVE DottedFrom(_, _)
DottedFrom(as, k) ==
  IF k > Len(as) THEN << >>
  ELSE (IF k > 1 THEN <<46>> ELSE << >>) \o ArcText(as[k]) \o DottedFrom(as, k + 1)
Dotted(as) == DottedFrom(as, 1)

=============================================================================
