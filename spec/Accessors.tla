----------------------------- MODULE Accessors ------------------------------
(* Conversions offered on a decoded object (as_u64, as_slice, ...), BIT      *)
(* STRING access, iteration and indexing.                                    *)
EXTENDS Encoder

NA == Err("BerTypeError")
Yes(d) == [s |-> OkS, d |-> d]

\* BIT STRING as an unsigned 64-bit number: the bits, right-aligned
BitsVal(pad, d, n) ==
  LET bits == Len(d) * 8 - pad IN
  IF bits < 0 THEN Err("InvalidLength")
  ELSE IF bits > 64 THEN Err("IntegerTooLarge")
  ELSE LET v == Trim(ShiftR(SubSeq(d, 1, (bits + 7) \div 8), pad % 8)) IN
       IF Len(v) > n THEN Err("IntegerTooLarge") ELSE Yes(PadL(v, n, 0))

AsI(o, n) == IF o.k = "int" THEN SignedVal(o.d, n) ELSE Err("BerValueError")
AsU(o, n) ==
  CASE o.k = "int" -> UnsignedVal(o.d, n)
    [] o.k = "bits" -> BitsVal(o.n[1], o.d, n)
    [] o.k = "enum" -> IF Len(o.d) > n THEN Err("IntegerTooLarge") ELSE Yes(PadL(o.d, n, 0))
    [] OTHER -> NA

\* minimal two's complement form (what BigInt::to_signed_bytes_be prints)
RECURSIVE MinTwos(_)
MinTwos(d) ==
  IF d = << >> THEN <<0>>
  ELSE IF Len(d) = 1 THEN d
  ELSE IF d[1] = 0
  THEN LET t == Trim(d) IN
       IF t = << >> THEN <<0>> ELSE IF t[1] >= 128 THEN <<0>> \o t ELSE t
  ELSE IF d[1] = 255 /\ d[2] >= 128 THEN MinTwos(Tail(d))
  ELSE d
MinUnsigned(d) == LET t == Trim(d) IN IF t = << >> THEN <<0>> ELSE t

AsBigInt(o) == IF o.k = "int" THEN Yes(MinTwos(o.d)) ELSE Err("BerValueError")
AsBigUint(o) ==
  IF o.k # "int" THEN Err("BerValueError")
  ELSE IF Negative(o.d) THEN Err("IntegerNegative") ELSE Yes(MinUnsigned(o.d))

AsBool(o) == IF o.k = "bool" THEN Yes(o.n) ELSE NA
AsOid(o) == IF o.k \in {"oid", "reloid"} THEN Yes(o.d) ELSE NA
AsBits(o) == IF o.k = "bits" THEN Yes(o.d) ELSE NA
AsSlice(o) == IF o.k \in StringKinds \cup {"int", "bits", "octets", "bmp", "universal", "unknown"}
              THEN Yes(o.d) ELSE NA
AsStr(o) == IF o.k \in StringKinds THEN Yes(o.d) ELSE NA
AsSeq(o) == IF o.k = "seq" THEN Yes(o.ch) ELSE NA
AsSet(o) == IF o.k = "set" THEN Yes(o.ch) ELSE NA
AsOptional(o) == IF o.k = "opt" THEN Yes(o.ch) ELSE NA
AsTagged(o) == IF o.k = "tagged" THEN Yes(<<o.n[1], o.d, o.ch[1]>>) ELSE NA

Acc(name, o) ==
  CASE name \in {"i64", "ci64"} -> AsI(o, 8) [] name \in {"i32", "ci32"} -> AsI(o, 4)
    [] name \in {"u64", "cu64"} -> AsU(o, 8) [] name \in {"u32", "cu32"} -> AsU(o, 4)
    [] name = "bigint" -> AsBigInt(o) [] name = "biguint" -> AsBigUint(o)
    [] name = "bool" -> AsBool(o) [] name \in {"oid", "oid_val"} -> AsOid(o)
    [] name \in {"bitstring", "bitstring_ref"} -> AsBits(o)
    [] name \in {"slice", "bitslice"} -> AsSlice(o) [] name = "str" -> AsStr(o)
    [] name = "sequence" -> AsSeq(o) [] name = "set" -> AsSet(o)
    [] name = "optional" -> AsOptional(o) [] name = "tagged" -> AsTagged(o)

IntAccessors == {"i64", "i32", "u64", "u32", "ci64", "ci32", "cu64", "cu32", "bigint", "biguint"}
OtherAccessors == {"bool", "oid", "oid_val", "bitstring", "bitstring_ref", "slice", "bitslice",
                   "str", "sequence", "set", "optional", "tagged"}

\* header queries: class, is_universal.. is_private, is_primitive, is_constructed,
\* assert_class (4), assert_constructed, assert_primitive
B01(b) == IF b THEN 1 ELSE 0
Flags(o) == << o.c, B01(o.c = 0), B01(o.c = 1), B01(o.c = 2), B01(o.c = 3),
               B01(o.p = 0), B01(o.p = 1),
               B01(o.c = 0), B01(o.c = 1), B01(o.c = 2), B01(o.c = 3),
               B01(o.p = 1), B01(o.p = 0) >>
TagTests(o) == [j \in 1..40 |-> B01(o.t = TagOf(j - 1))]

----------------------------------------------------------------------------
(* Iteration: the objects yielded by ref_iter / into_iter, in order          *)
IterRef(o) == IF o.k \in {"seq", "set"} THEN o.ch ELSE << >>
IterInto(o) == IF o.k \in {"seq", "set"} THEN o.ch ELSE <<o>>

----------------------------------------------------------------------------
(* Visitors: the sequence of callbacks, depth first, parents before children *)
VisitName(o) ==
  CASE o.k = "bits" -> "bitstring" [] o.k = "bmp" -> "bmpstring" [] o.k = "bool" -> "boolean"
    [] o.k = "eoc" -> "endofcontent" [] o.k = "general" -> "generalstring"
    [] o.k = "gentime" -> "generalizedtime" [] o.k = "graphic" -> "graphicstring"
    [] o.k = "ia5" -> "ia5string" [] o.k = "int" -> "integer" [] o.k = "numeric" -> "numericstring"
    [] o.k = "objdesc" -> "objectdescriptor" [] o.k = "octets" -> "octetstring"
    [] o.k = "opt" -> "optional" [] o.k = "printable" -> "printablestring"
    [] o.k = "reloid" -> "relative_oid" [] o.k = "seq" -> "sequence" [] o.k = "t61" -> "teletexstring"
    [] o.k = "utf8" -> "utf8string" [] o.k = "universal" -> "universalstring"
    [] o.k = "videotex" -> "videotextstring" [] o.k = "visible" -> "visiblestring"
    [] OTHER -> o.k

\* argument of the type-specific callback: bytes / small numbers
VisitArg(o) ==
  CASE o.k \in {"seq", "set", "opt"} -> <<Len(o.ch)>>
    [] o.k = "tagged" -> o.n \o o.d
    [] o.k \in {"bool", "utctime", "gentime"} -> o.n
    [] o.k = "bits" -> o.n \o o.d
    [] o.k \in {"eoc", "null"} -> << >>
    [] OTHER -> o.d

RECURSIVE Walk(_, _), WalkAll(_, _, _)
WalkAll(os, k, depth) == IF k > Len(os) THEN << >> ELSE Walk(os[k], depth) \o WalkAll(os, k + 1, depth)
Walk(o, depth) ==
  << [e |-> "ber", dp |-> depth, a |-> <<o.c, o.p>> \o o.t],
     [e |-> VisitName(o), dp |-> depth, a |-> VisitArg(o)] >>
  \o (IF o.k \in {"seq", "set"} THEN WalkAll(o.ch, 1, depth + 1) ELSE << >>)

=============================================================================
