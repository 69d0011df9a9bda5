------------------------------- MODULE Build --------------------------------
(* Constructors of objects: from_obj, from_int_slice, from_seq, from_set,     *)
(* From<Oid>, From<content>, explicit headers, raw tags.                      *)
EXTENDS Pretty

C(k, n, d, o, ch) == [s |-> OkS, k |-> k, n |-> n, d |-> d, o |-> o, ch |-> ch]
\* offset of a byte string that is not part of an input
Out(d) == IF d = << >> THEN -2 ELSE -1

\* universal tag of contents (unknown and tagged: the tag they carry; optional: of the inner object)
RECURSIVE ContentTag(_, _)
ContentTag(c, own) ==
  CASE c.k \in {"unknown", "tagged"} -> own
    [] c.k = "opt" -> IF c.ch = << >> THEN TagOf(0) ELSE own
    [] OTHER -> TagOf(TagNumOfKind(c.k))

FromObj(c, own) ==
  LET t == ContentTag(c, own) IN
  [c |-> 0, p |-> B01(t \in {TagOf(16), TagOf(17)}), t |-> t, len |-> 0, raw |-> << >>,
   k |-> c.k, n |-> c.n, d |-> c.d, o |-> c.o, ch |-> c.ch]

\* the tag that the contents themselves carry, whatever header is put in front of them
RECURSIVE BuildObj(_), ConTag(_)
ConTag(ex) ==
  LET op == ex[1] IN
  CASE op = "hdr" -> ConTag(ex[5])
    [] op = "rawtag" -> ConTag(ex[3])
    [] op \in {"norawtag", "fromcontent", "some"} -> ConTag(ex[2])
    [] op = "tagged" -> ex[3]
    [] op = "unknown" -> ex[4]
    [] OTHER -> BuildObj(ex).t

BuildObj(ex) ==
  LET op == ex[1]
      kids(j) == [q \in 1..(Len(ex) - j + 1) |-> BuildObj(ex[q + j - 1])]
  IN
  CASE op = "hdr" -> [BuildObj(ex[5]) EXCEPT !.c = ex[2], !.p = ex[3], !.t = ex[4], !.len = 0, !.raw = << >>]
    [] op = "rawtag" -> [BuildObj(ex[3]) EXCEPT !.raw = ex[2]]
    [] op = "norawtag" -> [BuildObj(ex[2]) EXCEPT !.raw = << >>]
    [] op = "fromoid" -> FromObj(C("oid", << >>, ex[2], Out(ex[2]), << >>), << >>)
    [] op = "fromcontent" ->
         LET o == BuildObj(ex[2]) IN
         FromObj([s |-> OkS, k |-> o.k, n |-> o.n, d |-> o.d, o |-> o.o, ch |-> o.ch], ConTag(ex[2]))
    [] op = "intslice" -> FromObj(C("int", << >>, ex[2], Out(ex[2]), << >>), << >>)
    [] op \in {"fromseq", "seq"} -> FromObj(C("seq", << >>, << >>, -2, kids(2)), << >>)
    [] op \in {"fromset", "set"} -> FromObj(C("set", << >>, << >>, -2, kids(2)), << >>)
    [] op \in {"eoc", "null"} -> FromObj(C(op, << >>, << >>, -2, << >>), << >>)
    [] op = "bool" -> FromObj(C(op, <<ex[2]>>, << >>, -2, << >>), << >>)
    [] op = "bits" -> FromObj(C(op, <<ex[2]>>, ex[3], Out(ex[3]), << >>), << >>)
    [] op = "enum" -> FromObj(C(op, << >>, Trim(ex[2]), -1, << >>), << >>)
    [] op \in {"utctime", "gentime"} ->
         FromObj(C(op, SubSeq(ex, 2, 9) \o (IF ex[9] >= 2 THEN SubSeq(ex, 10, 11) ELSE <<0, 0>>),
                   << >>, -2, << >>), << >>)
    [] op = "some" -> LET i == BuildObj(ex[2]) IN
                      FromObj(C("opt", << >>, << >>, -2, <<i>>), ConTag(ex[2]))
    [] op = "none" -> FromObj(C("opt", << >>, << >>, -2, << >>), TagOf(0))
    [] op = "tagged" -> FromObj(C(op, <<ex[2]>>, ex[3], -1, << BuildObj(ex[4]) >>), ex[3])
    [] op = "unknown" -> FromObj(C(op, <<ex[2], ex[3]>>, ex[5], Out(ex[5]), << >>), ex[4])
    [] OTHER -> FromObj(C(op, << >>, ex[2], Out(ex[2]), << >>), << >>)

=============================================================================
