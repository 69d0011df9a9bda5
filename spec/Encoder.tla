------------------------------ MODULE Encoder -------------------------------
(* The serializer: objects (as records built by Decoder!Obj) to bytes.       *)
EXTENDS Combinators

RECURSIVE EncContent(_), EncObj(_), EncAll(_, _)

EncAll(os, k) == IF k > Len(os) THEN << >> ELSE EncObj(os[k]) \o EncAll(os, k + 1)

EncContent(o) ==
  CASE o.k \in {"eoc", "null"} -> << >>
    [] o.k = "bool" -> << IF o.n[1] = 1 THEN 255 ELSE 0 >>
    [] o.k = "bits" -> << o.n[1] >> \o o.d
    [] o.k = "enum" -> IF o.d = << >> THEN <<0>> ELSE o.d
    [] o.k = "utctime" -> EncTime(o.n, TRUE)
    [] o.k = "gentime" -> EncTime(o.n, FALSE)
    [] o.k \in {"seq", "set"} -> EncAll(o.ch, 1)
    [] o.k = "opt" -> IF o.ch = << >> THEN << >> ELSE EncContent(o.ch[1])
    [] o.k = "tagged" -> EncObj(o.ch[1])
    [] OTHER -> o.d

EncTlv(cls, con, t, c) == EncIdent(cls, con, t) \o EncLen(Len(c)) \o c

EncObj(o) ==
  IF o.k = "opt" /\ o.ch = << >> THEN << >>
  ELSE EncTlv(o.c, o.p, o.t, EncContent(o))

EncExplicit(cls, t, o) == EncTlv(cls, 1, t, EncObj(o))
EncImplicit(cls, t, o) == EncTlv(cls, o.p, t, EncContent(o))

\* header alone; lb minimal length bytes, indef flag
EncHeader(cls, con, t, indef, lb) ==
  EncIdent(cls, con, t) \o (IF indef THEN <<128>> ELSE EncLenB(lb))

----------------------------------------------------------------------------
(* Equality of objects up to the octets a serializer may choose: length       *)
(* field, raw tag and position in the input                                   *)
RECURSIVE SameValue(_, _)
SameValue(a, b) ==
  /\ a.c = b.c /\ a.p = b.p /\ a.t = b.t
  /\ a.k = b.k /\ a.n = b.n /\ a.d = b.d
  /\ Len(a.ch) = Len(b.ch)
  /\ \A j \in 1..Len(a.ch) : SameValue(a.ch[j], b.ch[j])

\* objects the generic parser can return (no OPTIONAL / Tagged wrapper, and
\* header consistent with the contents)
RECURSIVE Plain(_)
Plain(o) ==
  /\ o.k \notin {"opt", "tagged"}
  /\ IF o.c = 0 THEN KindOf(TagNum(o.t)) = o.k ELSE o.k = "unknown"
  /\ \A j \in 1..Len(o.ch) : Plain(o.ch[j])

=============================================================================
