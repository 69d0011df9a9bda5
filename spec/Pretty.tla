------------------------------- MODULE Pretty -------------------------------
(* The pretty printer: text of an object, for an indentation, an increment,  *)
(* and the flags Recursive and ShowHeader.                                    *)
EXTENDS Oid, Names

Spaces(n) == Fill(n, 32)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex2(b) == << HexDigit(b \div 16), HexDigit(b % 16) >>
\* [0a ff]
HexText(d) ==
  <<91>> \o [j \in 1..(IF d = << >> THEN 0 ELSE (3 * Len(d)) - 1) |->
               IF j % 3 = 0 THEN 32 ELSE Hex2(d[((j - 1) \div 3) + 1])[(j % 3)]] \o <<93>>

\* decimal text of a big-endian byte string
RECURSIVE DivTen256(_, _, _, _)
DivTen256(a, k, rem, q) ==
  IF k > Len(a) THEN << Trim(q), rem >>
  ELSE LET v == (rem * 256) + a[k] IN DivTen256(a, k + 1, v % 10, Append(q, v \div 10))
RECURSIVE DecText(_)
DecText(a) ==
  LET t == Trim(a) IN
  IF t = << >> THEN <<48>>
  ELSE LET r == DivTen256(t, 1, 0, << >>) IN
       IF r[1] = << >> THEN << 48 + r[2] >> ELSE Append(DecText(r[1]), 48 + r[2])
\* minimal hexadecimal
HexNum(t) ==
  LET b == Trim(t) IN
  IF b = << >> THEN <<48>>
  ELSE (IF b[1] < 16 THEN << HexDigit(b[1]) >> ELSE Hex2(b[1]))
       \o FlattenB([k \in 1..(Len(b) - 1) |-> Hex2(b[k + 1])])

----------------------------------------------------------------------------
(* UTF-8 encoding of a code point given as <<plane, hi, lo>> *)
Utf8Of(pl, hi, lo) ==
  LET v == (hi * 256) + lo IN
  IF pl = 0 /\ v < 128 THEN << v >>
  ELSE IF pl = 0 /\ v < 2048 THEN << 192 + v \div 64, 128 + (v % 64) >>
  ELSE IF pl = 0 THEN << 224 + v \div 4096, 128 + ((v \div 64) % 64), 128 + (v % 64) >>
  ELSE LET w == (pl * 65536) + v IN
       << 240 + w \div 262144, 128 + ((w \div 4096) % 64), 128 + ((w \div 64) % 64), 128 + (w % 64) >>

\* UTF-16BE contents (known to be well formed; an odd last byte is ignored)
RECURSIVE Utf16Text(_, _)
Utf16Text(d, i) ==
  IF i + 1 > Len(d) THEN << >>
  ELSE IF d[i] \in 216..219
  THEN LET h == ((d[i] - 216) * 256) + d[i + 1]
           l == ((d[i + 2] - 220) * 256) + d[i + 3]
           w == (h * 1024) + l
       IN Utf8Of(1 + w \div 65536, (w \div 256) % 256, w % 256) \o Utf16Text(d, i + 4)
  ELSE Utf8Of(0, d[i], d[i + 1]) \o Utf16Text(d, i + 2)

Ucs4Ok(d) == \A k \in 0..((Len(d) \div 4) - 1) :
  /\ d[4 * k + 1] = 0
  /\ \/ d[4 * k + 2] \in 1..16
     \/ d[4 * k + 2] = 0 /\ d[4 * k + 3] \notin 216..223
Ucs4Text(d) == FlattenB([k \in 1..(Len(d) \div 4) |->
                           Utf8Of(d[4 * k - 2], d[4 * k - 1], d[4 * k])])
\* [0, 0, 216, 0]: a byte slice printed in decimal
RECURSIVE DecListFrom(_, _)
DecListFrom(d, k) == IF k > Len(d) THEN << >>
                     ELSE (IF k > 1 THEN <<44, 32>> ELSE << >>) \o Dec(d[k], 1) \o DecListFrom(d, k + 1)

----------------------------------------------------------------------------
TimeText(t) ==
  Dec(t[1], 4) \o Dec(t[2], 2) \o Dec(t[3], 2) \o Dec(t[4], 2) \o Dec(t[5], 2) \o Dec(t[6], 2)
  \o (IF t[7] >= 0 THEN <<46>> \o Dec(t[7], 1) ELSE << >>) \o <<90>>

LenText(l) == IF l = Indef THEN IndefT ELSE DecText(NatBytes(l))

HeaderText(o) ==
  LET tn == TagNum(o.t) IN
  <<91>>
  \o (CASE o.c = 0 -> IF TagName(tn) # << >> THEN TagName(tn)
                      ELSE TagT \o DecText(o.t) \o HexT \o HexNum(o.t) \o <<41>>
        [] o.c = 2 -> DecText(o.t)
        [] OTHER -> ClassName(o.c) \o <<32>> \o DecText(o.t))
  \o <<93>> \o (IF o.p = 1 THEN <<43>> ELSE << >>) \o <<32>> \o LenText(o.len) \o <<32>>

(* The text of an object identifier is that of asn1-rs without its "bigint" feature: dotted, or   *)
(* the octets in hexadecimal when a terminated sub-identifier takes more than 64 bits (10 octets   *)
(* or more).  An unterminated last one is not counted and shows modulo 2^64 (deviation D7).       *)
WideArc(d, from) ==
  \E e \in (from + 9)..Len(d) : d[e] < 128 /\ \A k \in (e - 9)..(e - 1) : d[k] >= 128
Mod64(a) ==
  IF Len(a) < 10 THEN a
  ELSE LET b == SubSeq(a, Len(a) - 9, Len(a)) IN TrimD(<<(b[1] % 2)>> \o SubSeq(b, 2, 10))
OidText(d, relative) ==
  IF WideArc(d, IF relative THEN 1 ELSE 2) THEN SubSeq(HexText(d), 2, 3 * Len(d))
  ELSE LET as == OidArcs(d, relative) IN Dotted([k \in 1..Len(as) |-> Mod64(as[k])])

Quoted(k, d) == KindName(k) \o <<40, 34>> \o d \o <<34, 41>>
Paren(k, d) == KindName(k) \o <<40>> \o d \o <<41>>

RECURSIVE PrettyText(_, _, _, _, _), PrettyAll(_, _, _, _, _, _)
PrettyAll(os, k, ind, inc, rec, hdr) ==
  IF k > Len(os) THEN << >>
  ELSE PrettyText(os[k], ind, inc, rec, hdr) \o PrettyAll(os, k + 1, ind, inc, rec, hdr)

PrettyText(o, ind, inc, rec, hdr) ==
  Spaces(ind) \o (IF hdr THEN HeaderText(o) ELSE << >>)
  \o (CASE o.k \in {"eoc", "null"} -> KindName(o.k)
        [] o.k = "bool" -> Paren(o.k, IF o.n[1] = 1 THEN TrueT ELSE FalseT)
        [] o.k \in {"int", "octets"} -> Paren(o.k, HexText(o.d))
        [] o.k = "bits" -> Paren(o.k, Dec(o.n[1], 1) \o <<44>> \o HexText(o.d))
        [] o.k = "enum" -> Paren(o.k, DecText(o.d))
        [] o.k \in {"oid", "reloid"} ->
             Paren(o.k, OidT \o (IF o.k = "reloid" THEN RelT ELSE << >>)
                        \o OidText(o.d, o.k = "reloid") \o <<41>>)
        [] o.k \in {"utctime", "gentime"} -> Quoted(o.k, TimeText(o.n))
        [] o.k \in {"t61", "videotex"} -> Paren(o.k, o.d)
        [] o.k \in StringKinds -> Quoted(o.k, o.d)
        [] o.k = "bmp" -> Quoted(o.k, Utf16Text(o.d, 1)) \o <<10>>
        [] o.k = "universal" ->
             IF Ucs4Ok(o.d) THEN Quoted(o.k, Ucs4Text(o.d)) \o <<10>>
             ELSE Paren(o.k, <<91>> \o DecListFrom(o.d, 1) \o <<93>>) \o Utf32Err
        [] o.k = "unknown" -> KindName(o.k) \o <<32>> \o HexText(o.d)
        \* a present value is shown as its Debug text, which the record carries in d
        [] o.k = "opt" -> IF o.ch = << >> THEN KindName(o.k) ELSE OptionT \o o.d
        [] o.k = "tagged" ->
             KindName(o.k) \o <<32, 91>> \o ClassName(o.n[1]) \o <<32>> \o DecText(o.d)
             \o <<93, 32, 123, 10>>
             \o PrettyText(o.ch[1], ind + inc, inc, rec, hdr) \o Spaces(ind) \o <<125>>
        [] o.k \in {"seq", "set"} ->
             KindName(o.k)
             \o (IF rec THEN <<91, 10>> \o PrettyAll(o.ch, 1, ind + inc, inc, rec, hdr)
                             \o Spaces(ind) \o <<93>>
                 ELSE << >>))

\* the flags after a history of set / unset operations, after each of them
RECURSIVE FlagHist(_, _, _, _)
FlagHist(ops, k, rec, hdr) ==
  IF k > Len(ops) THEN << >>
  ELSE LET r == CASE ops[k] = "r" -> 1 [] ops[k] = "R" -> 0 [] OTHER -> rec
           h == CASE ops[k] = "h" -> 1 [] ops[k] = "H" -> 0 [] OTHER -> hdr
       IN << <<r, h>> >> \o FlagHist(ops, k + 1, r, h)

=============================================================================
