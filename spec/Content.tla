------------------------------ MODULE Content -------------------------------
(* Contents octets of the primitive universal types.  All operators take the *)
(* whole input s and the range lo..hi of the contents octets (hi = lo-1 when *)
(* empty).                                                                   *)
EXTENDS Header

----------------------------------------------------------------------------
(* Universal tag numbers and the kind of value they decode to *)
KindOf(tn) ==
  CASE tn = 0 -> "eoc"        [] tn = 1 -> "bool"     [] tn = 2 -> "int"
    [] tn = 3 -> "bits"       [] tn = 4 -> "octets"   [] tn = 5 -> "null"
    [] tn = 6 -> "oid"        [] tn = 7 -> "objdesc"  [] tn = 10 -> "enum"
    [] tn = 12 -> "utf8"      [] tn = 13 -> "reloid"  [] tn = 16 -> "seq"
    [] tn = 17 -> "set"       [] tn = 18 -> "numeric" [] tn = 19 -> "printable"
    [] tn = 20 -> "t61"       [] tn = 21 -> "videotex" [] tn = 22 -> "ia5"
    [] tn = 23 -> "utctime"   [] tn = 24 -> "gentime" [] tn = 25 -> "graphic"
    [] tn = 26 -> "visible"   [] tn = 27 -> "general" [] tn = 28 -> "universal"
    [] tn = 30 -> "bmp"       [] OTHER -> "unknown"

TagNumOfKind(k) == CHOOSE tn \in 0..30 : KindOf(tn) = k

\* string kinds whose characters are checked one byte at a time
ByteCharKinds == {"objdesc", "numeric", "printable", "t61", "videotex", "ia5",
                  "graphic", "visible", "general"}
StringKinds == ByteCharKinds \cup {"utf8"}
RawKinds == {"int", "octets", "oid", "reloid"}

----------------------------------------------------------------------------
(* Character repertoires (X.680 section 41) *)
Digits == 48..57
Letters == (65..90) \cup (97..122)
Ascii == 0..127
\* space ' ( ) + , - . / : = ?
PrintableChars == Digits \cup Letters \cup {32, 39, 40, 41, 43, 44, 45, 46, 47, 58, 61, 63}
VisibleChars == 32..127    \* deviation D3: DEL (7f) is accepted

CharsOf(k) ==
  CASE k \in {"objdesc", "graphic", "general", "ia5"} -> Ascii
    [] k = "numeric" -> Digits \cup {32}
    [] k = "printable" -> PrintableChars
    [] k \in {"t61", "videotex", "visible"} -> VisibleChars
    [] OTHER -> Byte

CharsOk(s, lo, hi, set) == \A j \in lo..hi : s[j] \in set

(* UTF-8 (RFC 3629) as a finite automaton over the bytes.                    *)
(* state 0: between characters; 1,2,3: that many plain continuation bytes    *)
(* expected; 4: after E0; 5: after ED; 6: after F0; 7: after F4; 9: reject   *)
U8Step(q, b) ==
  CASE q = 0 -> (CASE b < 128 -> 0 [] b \in 194..223 -> 1 [] b = 224 -> 4 [] b = 237 -> 5
                   [] b \in 225..239 -> 2 [] b = 240 -> 6 [] b \in 241..243 -> 3
                   [] b = 244 -> 7 [] OTHER -> 9)
    [] q = 1 -> IF b \in 128..191 THEN 0 ELSE 9
    [] q = 2 -> IF b \in 128..191 THEN 1 ELSE 9
    [] q = 3 -> IF b \in 128..191 THEN 2 ELSE 9
    [] q = 4 -> IF b \in 160..191 THEN 1 ELSE 9
    [] q = 5 -> IF b \in 128..159 THEN 1 ELSE 9
    [] q = 6 -> IF b \in 144..191 THEN 2 ELSE 9
    [] q = 7 -> IF b \in 128..143 THEN 2 ELSE 9
    [] OTHER -> 9

Utf8Ok(s, lo, hi) == CharsOk(s, lo, hi, Ascii) \/ FoldLeft(U8Step, 0, SubSeq(s, lo, hi)) = 0

(* UTF-16BE: only the high byte of each unit matters.  state 0: expect a     *)
(* unit; 1: after a high surrogate; 9: reject                                *)
U16Step(q, hb) ==
  CASE q = 0 -> (CASE hb \in 216..219 -> 1 [] hb \in 220..223 -> 9 [] OTHER -> 0)
    [] q = 1 -> IF hb \in 220..223 THEN 0 ELSE 9
    [] OTHER -> 9

Utf16Ok(s, lo, hi) ==
  FoldLeft(U16Step, 0, [k \in 1..((hi - lo + 1) \div 2) |-> s[lo + 2 * (k - 1)]]) = 0

----------------------------------------------------------------------------
(* Dates.  A time value is <<year, month, day, hour, minute, second,         *)
(* millisecond or -1, zone, zh, zm>>, zone = 0 undefined, 1 Z, 2 offset      *)
Two(s, i) == IF s[i] \in Digits /\ s[i + 1] \in Digits
             THEN (s[i] - 48) * 10 + (s[i + 1] - 48) ELSE -1

BadTime == [s |-> ErrS, e |-> "InvalidValue"]

Zone(s, i, hi) ==   \* <<zone, zh, zm>> or << >> if malformed
  IF i = hi /\ s[i] = 90 THEN <<1, 0, 0>>
  ELSE IF hi = i + 4 /\ s[i] \in {43, 45}
  THEN LET h == Two(s, i + 1) m == Two(s, i + 3) IN
       IF h < 0 \/ m < 0 THEN << >>
       ELSE <<2, IF s[i] = 45 THEN -h ELSE h, m>>
  ELSE << >>

\* hh mm [ss] fields: common to both types, date already read (mo, dy)
TimeRest(s, i, hi, year, mo, dy, frac) ==
  LET ho == Two(s, i) mi == Two(s, i + 2)
      j == i + 4                        \* first byte after the minutes
      hasSec == j + 1 <= hi
      se == IF hasSec THEN Two(s, j) ELSE 0
      r == IF hasSec THEN j + 2 ELSE j
  IN
  IF year < 0 \/ mo < 0 \/ dy < 0 \/ ho < 0 \/ mi < 0 \/ j > hi THEN BadTime
  ELSE IF se < 0 \/ mo > 12 \/ dy > 31 \/ ho > 23 \/ mi > 59 \/ se > 59 THEN BadTime
  ELSE LET
      base == <<year, mo, dy, ho, mi, se>>
      isFrac == frac /\ r <= hi /\ s[r] \in {44, 46}
      \* number of fraction digits
      nd == IF ~isFrac THEN 0
            ELSE LET f == {k \in 0..4 : r + 1 + k > hi \/ s[r + 1 + k] \notin Digits}
                 IN IF f = {} THEN 5 ELSE CHOOSE k \in f : \A x \in f : k <= x
      fv == IF nd = 0 THEN 0
            ELSE FoldLeft(LAMBDA a, b : a * 10 + (b - 48), 0, SubSeq(s, r + 1, r + nd))
      ms == CASE nd = 1 -> fv * 100 [] nd = 2 -> fv * 10 [] OTHER -> fv
      q == IF isFrac THEN r + 1 + nd ELSE r
      z == Zone(s, q, hi)
    IN
    IF isFrac /\ nd = 0 /\ q > hi THEN BadTime
    ELSE IF isFrac /\ (nd > 4 \/ (nd = 4 /\ q <= hi)) THEN BadTime
    ELSE IF q > hi
         THEN IF frac THEN [s |-> OkS, t |-> base \o <<IF isFrac THEN ms ELSE -1, 0, 0, 0>>]
              ELSE BadTime
    ELSE IF z = << >> THEN BadTime
    ELSE [s |-> OkS, t |-> base \o <<IF isFrac THEN ms ELSE -1>> \o z]

UtcTime(s, lo, hi) ==
  IF hi - lo + 1 < 10 THEN BadTime
  ELSE TimeRest(s, lo + 6, hi, Two(s, lo), Two(s, lo + 2), Two(s, lo + 4), FALSE)

GenTime(s, lo, hi) ==
  IF hi - lo + 1 < 12 THEN BadTime
  ELSE LET a == Two(s, lo) b == Two(s, lo + 2) IN
       TimeRest(s, lo + 8, hi, IF a < 0 \/ b < 0 THEN -1 ELSE a * 100 + b,
                Two(s, lo + 4), Two(s, lo + 6), TRUE)

\* decimal digits of n, at least w of them
RECURSIVE Dec(_, _)
Dec(n, w) == IF n < 10 /\ w <= 1 THEN << 48 + n >>
             ELSE Append(Dec(n \div 10, w - 1), 48 + (n % 10))

AbsV(n) == IF n < 0 THEN -n ELSE n

EncTime(t, utc) ==
  (IF utc THEN Dec(t[1] % 100, 2) ELSE Dec(t[1], 4))
  \o Dec(t[2], 2) \o Dec(t[3], 2) \o Dec(t[4], 2) \o Dec(t[5], 2) \o Dec(t[6], 2)
  \o (IF ~utc /\ t[7] >= 0 THEN <<46>> \o Dec(t[7], 3) ELSE << >>)
  \o (CASE t[8] = 0 -> IF utc THEN <<90>> ELSE << >>
        [] t[8] = 1 -> <<90>>
        [] t[8] = 2 -> << IF t[9] < 0 \/ t[10] < 0 THEN 45 ELSE 43 >>
                       \o Dec(AbsV(t[9]), 2) \o Dec(AbsV(t[10]), 2))

----------------------------------------------------------------------------
(* Decoded contents: [s, k, n, d, o, ch]; o is the 0-based input offset of    *)
(* the value's bytes, -2 when there are none, -1 when not part of the input   *)
Val(k, n, d, o) == [s |-> OkS, k |-> k, n |-> n, d |-> d, o |-> o, ch |-> << >>]
Off(lo, hi) == IF hi < lo THEN -2 ELSE lo - 1

\* all universal types except SEQUENCE and SET.  len: the length field
\* (contents may be shorter only for -1, indefinite); con: constructed bit
PrimContent(s, tn, len, con, lo, hi) ==
  LET k == KindOf(tn)
      d == SubSeq(s, lo, hi)
      n == hi - lo + 1
  IN
  CASE k \in {"eoc", "null"} -> IF n # 0 THEN Err("InvalidLength") ELSE Val(k, << >>, << >>, -2)
    [] k = "bool" -> IF len # 1 THEN Err("InvalidLength")
                     ELSE Val(k, <<IF s[lo] = 0 THEN 0 ELSE 1>>, << >>, -2)
    [] k \in RawKinds -> Val(k, << >>, d, Off(lo, hi))
    [] k = "bits" -> IF n = 0 THEN Err("BerValueError")
                     ELSE IF con = 1 THEN Err("Unsupported")
                     ELSE Val(k, <<s[lo]>>, SubSeq(s, lo + 1, hi), Off(lo + 1, hi))
    [] k = "enum" -> IF con = 1 THEN Err("ConstructUnexpected")
                     ELSE IF Len(Trim(d)) > 4 THEN Err("IntegerTooLarge")
                     ELSE Val(k, << >>, Trim(d), -1)
    [] k \in StringKinds ->
         IF con = 1 THEN Err("Unsupported")
         ELSE IF k = "utf8"
              THEN IF Utf8Ok(s, lo, hi) THEN Val(k, << >>, d, Off(lo, hi)) ELSE Err("Charset")
              ELSE IF CharsOk(s, lo, hi, CharsOf(k)) THEN Val(k, << >>, d, Off(lo, hi))
                   ELSE Err("Charset")
    [] k = "bmp" -> IF con = 1 \/ n % 2 = 1 THEN Err("Unsupported")
                    ELSE IF Utf16Ok(s, lo, hi) THEN Val(k, << >>, d, Off(lo, hi))
                    ELSE Err("Charset")
    [] k = "universal" -> IF con = 1 THEN Err("Unsupported")
                          ELSE Val(k, << >>, d, Off(lo, hi)) \* deviation D5: UCS-4 unchecked
    [] k \in {"utctime", "gentime"} ->
         IF ~CharsOk(s, lo, hi, VisibleChars) THEN Err("Charset")
         ELSE LET t == IF k = "utctime" THEN UtcTime(s, lo, hi) ELSE GenTime(s, lo, hi) IN
              IF t.s # OkS THEN t ELSE Val(k, t.t, << >>, -2)
    [] OTHER -> Val("unknown", <<0, con>>, d, Off(lo, hi))

\* Additional constraints of DER on a universal primitive (X.690 8, 10, 11)
DerConstraint(s, tn, len, con, lo) ==
  LET k == KindOf(tn) hi == lo + len - 1 IN
  CASE k = "bool" -> IF len # 1 THEN "InvalidLength"
                     ELSE IF s[lo] \notin {0, 255} THEN "Der:InvalidBoolean" ELSE ""
    [] k = "bits" -> IF con = 1 THEN "Der:Constructed"
                     ELSE IF len = 0 THEN "InvalidLength"
                     ELSE IF s[lo] > 7 THEN "InvalidValue"
                     ELSE IF len = 1 /\ s[lo] # 0 THEN "InvalidValue"
                     ELSE IF len > 1 /\ s[hi] % Pow2[s[lo]] # 0 THEN "Der:UnusedBitsNotZero"
                     ELSE ""
    [] k = "int" -> IF len = 0 THEN "Der:IntegerEmpty"
                    ELSE IF len >= 2 /\ s[lo] = 0 /\ s[lo + 1] < 128 THEN "Der:IntegerLeadingZeroes"
                    ELSE IF len >= 2 /\ s[lo] = 255 /\ s[lo + 1] >= 128 THEN "Der:IntegerLeadingFF"
                    ELSE ""
    [] k \in StringKinds \cup {"octets", "bmp", "universal"} ->
         IF con = 1 THEN "Der:Constructed" ELSE ""
    [] k \in {"utctime", "gentime"} ->
         IF len = 0 THEN "Der:MissingTimeZone"
         ELSE IF s[hi] # 90 THEN "Der:MissingTimeZone" ELSE ""
    [] OTHER -> ""

=============================================================================
