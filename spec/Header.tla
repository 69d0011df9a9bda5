------------------------------- MODULE Header -------------------------------
(* Identifier and length octets (X.690 8.1.2 and 8.1.3).                     *)
(*                                                                           *)
(* A parsing position is a pair (i, e) in a byte string s: i is the index of *)
(* the next byte, e the index of the last available byte.                    *)
EXTENDS Bytes

OkS == "ok"      \* the call returned a value
IncS == "inc"    \* the call asked for more input
ErrS == "err"    \* the call returned a (recoverable) error
FailS == "fail"  \* the call returned an unrecoverable error

Err(kind) == [s |-> ErrS, e |-> kind]
Inc == [s |-> IncS, e |-> "Incomplete"]

Universal == 0   Application == 1   Context == 2   Private == 3

\* Tag numbers are 4-byte strings; TagOf(n) builds one for n < 65536
TagOf(n) == <<0, 0, n \div 256, n % 256>>
\* small value of a tag; 65536 stands for any larger one
TagNum(t) == IF t[1] = 0 /\ t[2] = 0 THEN t[3] * 256 + t[4] ELSE 65536

\* 5 base-128 digits (35 bits) to 32 bits; the 3 upper bits are lost (deviation D1)
Digits5ToTag(d) == << (d[1] % 16) * 16 + d[2] \div 8,
                      (d[2] % 8) * 32 + d[3] \div 4,
                      (d[3] % 4) * 64 + d[4] \div 2,
                      (d[4] % 2) * 128 + d[5] >>

TagToDigits5(t) == << t[1] \div 16,
                      (t[1] % 16) * 8 + t[2] \div 32,
                      (t[2] % 32) * 4 + t[3] \div 64,
                      (t[3] % 64) * 2 + t[4] \div 128,
                      t[4] % 128 >>

(* identifier octets *)
RECURSIVE LastTagByte(_, _, _, _)
\* index of the last tag byte, 0 if the input or the 5 allowed bytes run out
LastTagByte(s, i, e, n) ==
  IF i > e \/ n > 5 THEN 0
  ELSE IF s[i] < 128 THEN i
  ELSE LastTagByte(s, i + 1, e, n + 1)

Ident(s, i, e) ==
  IF i > e THEN Inc
  ELSE LET b == s[i] low == b % 32 IN
    IF low # 31
    THEN [s |-> OkS, cls |-> b \div 64, con |-> (b \div 32) % 2,
          tag |-> <<0, 0, 0, low>>, tn |-> low, nx |-> i + 1]
    ELSE LET last == LastTagByte(s, i + 1, e, 1) IN
      \* a truncated or over-long tag number is an error (deviation D2: not Incomplete)
      IF last = 0 THEN Err("InvalidTag")
      ELSE LET ds == [k \in 1..(last - i) |-> s[i + k] % 128]
               tg == Digits5ToTag(PadL(ds, 5, 0))
           IN [s |-> OkS, cls |-> b \div 64, con |-> (b \div 32) % 2,
               tag |-> tg, tn |-> TagNum(tg), nx |-> last + 1]

(* length octets; len = -1: indefinite, -2: 2^28 or more *)
Indef == -1

LenOctets(s, i, e) ==
  IF i > e THEN Inc
  ELSE LET b == s[i] IN
    IF b < 128 THEN [s |-> OkS, len |-> b, lb |-> Trim(<<b>>), nx |-> i + 1]
    ELSE IF b = 128 THEN [s |-> OkS, len |-> Indef, lb |-> << >>, nx |-> i + 1]
    ELSE IF b = 255 THEN Err("InvalidLength")
    ELSE LET n == b - 128 IN
      IF i + n > e THEN Inc
      ELSE LET v == Trim(SubSeq(s, i + 1, i + n)) IN
        IF Len(v) > 8 THEN Err("InvalidLength")
        ELSE [s |-> OkS, len |-> SmallVal(v), lb |-> v, nx |-> i + n + 1]

(* A full header: rules = "ber" or "der".  lo is the first content byte.    *)
Hdr(s, i, e, rules) ==
  LET id == Ident(s, i, e) IN
  IF id.s # OkS THEN id
  ELSE LET ln == LenOctets(s, id.nx, e) IN
    IF ln.s # OkS THEN ln
    ELSE IF ln.len = Indef /\ rules = "der" THEN Err("Der:IndefiniteLength")
    ELSE IF ln.len = Indef /\ id.con = 0 THEN Err("ConstructExpected")
    ELSE [s |-> OkS, cls |-> id.cls, con |-> id.con, tag |-> id.tag, tn |-> id.tn,
          len |-> ln.len, lb |-> ln.lb, raw |-> SubSeq(s, i, id.nx - 1), lo |-> ln.nx]

(* Canonical (minimal) encoding of a header *)
HighTag(t) ==
  LET d == TagToDigits5(t)
      f == FirstNot(d, 1, 4, 0)
  IN [k \in 1..(6 - f) |-> IF f + k - 1 = 5 THEN d[5] ELSE 128 + d[f + k - 1]]

EncIdent(cls, con, t) ==
  IF TagNum(t) <= 30 THEN << cls * 64 + con * 32 + TagNum(t) >>
  ELSE << cls * 64 + con * 32 + 31 >> \o HighTag(t)

\* lb: minimal big-endian bytes of the length
EncLenB(lb) ==
  IF Len(lb) = 0 THEN <<0>>
  ELSE IF Len(lb) = 1 /\ lb[1] <= 127 THEN lb
  ELSE << 128 + Len(lb) >> \o lb

EncLen(n) == EncLenB(NatBytes(n))

=============================================================================
