---------------------------- MODULE UserParsers -----------------------------
(* The combinators seen from the parsers their user supplies: which octets    *)
(* and which header each user parser is called with, in which order, and what *)
(* becomes of its values and of its errors.                                   *)
(*                                                                            *)
(* User parsers (they carry a label; every call on a non-empty input is an    *)
(* event of the log):                                                         *)
(*   <<"utake", l, n>>            the first n octets                          *)
(*   <<"ucount", l, n, c, code>>  the same for its first c calls, then fails  *)
(*   <<"ufail", l, how, code>>    fails, with an error of its own             *)
(*   <<"note", l, ex>>            calls the parser ex                         *)
(* and the bodies of the combinators that hand over a header.  The log is     *)
(* threaded through: U gives <<result, log>>.                                 *)
EXTENDS Combinators, TLC

Ev(l, i, e) == <<l, Off(i, e), e - i + 1>>
EvH(l, h, lo, hi, depth) == Ev(l, lo, hi) \o <<h.cls, h.con>> \o h.tag \o <<h.len>> \o h.raw \o <<depth>>

UserErr(n) == "user" \o ToString(n)
CallsOf(log, l) == Cardinality({j \in 1..Len(log) : log[j][1] = l})

UTake(s, i, e, n, log) ==
  IF e - i + 1 < n THEN <<Inc, log>> ELSE <<Ok(SliceObj(s, i, i + n - 1), i + n), log>>

RECURSIVE U(_, _, _, _, _, _), UMany(_, _, _, _, _, _, _), UEach(_, _, _, _, _, _, _, _)

UMany(ex, rules, s, i, e, acc, log) ==
  LET u == U(ex, rules, s, i, e, log) r == u[1] IN
  IF r.s = IncS THEN <<IF i > e THEN [s |-> OkS, v |-> acc] ELSE Err("NomError"), u[2]>>
  ELSE IF r.s # OkS THEN <<AsFailure(r), u[2]>>
  ELSE IF r.nx = i THEN <<Err("NomError"), u[2]>>
  ELSE UMany(ex, rules, s, r.nx, e, Append(acc, r.v), u[2])

UEach(exs, k, rules, s, i, e, acc, log) ==
  IF k > Len(exs) THEN <<[s |-> OkS, v |-> acc], log>>
  ELSE LET u == U(exs[k], rules, s, i, e, log) r == u[1] IN
       IF r.s # OkS THEN <<r, u[2]>>
       ELSE UEach(exs, k + 1, rules, s, r.nx, e, Append(acc, r.v), u[2])

\* a body that is handed the header h with the contents of c
UBody(ex, k, rules, s, c, h, depth, log) ==
  LET u == UEach(ex, k, rules, s, c.lo, c.hi, << >>, Append(log, EvH(ex[2], h, c.lo, c.hi, depth))) IN
  IF u[1].s # OkS THEN u ELSE <<Ok(Obj(h, Group("seq", u[1].v)), c.nx), u[2]>>

U(ex, rules, s, i, e, log) ==
  LET op == ex[1]
      IsSeq == op \in {"seqof", "seqofv", "seqdef", "seqdefg"}
  IN
  CASE op = "utake" -> IF i > e THEN <<Inc, log>> ELSE UTake(s, i, e, ex[3], Append(log, Ev(ex[2], i, e)))
    [] op = "ucount" ->
         IF i > e THEN <<Inc, log>>
         ELSE LET lg == Append(log, Ev(ex[2], i, e)) IN
              IF CallsOf(log, ex[2]) >= ex[4] THEN <<Err(UserErr(ex[5])), lg>>
              ELSE UTake(s, i, e, ex[3], lg)
    [] op = "ufail" ->
         IF i > e THEN <<Inc, log>>
         ELSE <<CASE ex[3] = "err" -> Err(UserErr(ex[4]))
                  [] ex[3] = "fail" -> [s |-> FailS, e |-> UserErr(ex[4])]
                  [] OTHER -> Inc, Append(log, Ev(ex[2], i, e))>>
    [] op = "note" -> U(ex[3], rules, s, i, e, IF i > e THEN log ELSE Append(log, Ev(ex[2], i, e)))
    [] op \in {"seqof", "seqofv", "setof", "setofv", "seqdef", "setdef"} ->
         LET c == Container(rules, s, i, e) IN
         IF c.s # OkS THEN <<c, log>>
         ELSE IF c.h.tag # TagOf(IF IsSeq THEN 16 ELSE 17) THEN <<Err("UnexpectedTag"), log>>
         ELSE LET u == IF op \in {"seqdef", "setdef"} THEN UEach(ex, 2, rules, s, c.lo, c.hi, << >>, log)
                       ELSE UMany(ex[2], rules, s, c.lo, c.hi, << >>, log) IN
              IF u[1].s # OkS THEN u
              ELSE <<Ok(IF IsSeq THEN FromSeq(u[1].v) ELSE FromSet(u[1].v), c.nx), u[2]>>
    [] op \in {"seqdefg", "setdefg", "cont"} ->
         LET c == Container(rules, s, i, e) IN
         IF c.s # OkS THEN <<c, log>>
         ELSE IF op # "cont" /\ c.h.tag # TagOf(IF IsSeq THEN 16 ELSE 17) THEN <<Err("UnexpectedTag"), log>>
         ELSE UBody(ex, 3, rules, s, c, c.h, 0, log)
    [] op \in {"expl", "explg"} ->
         LET c == Container(rules, s, i, e) want == IF op = "expl" THEN ex[2] ELSE ex[3] IN
         IF c.s # OkS THEN <<c, log>>
         ELSE IF c.h.cls = Universal THEN <<Err("UnexpectedClass"), log>>
         ELSE IF c.h.tag # TagOf(want) THEN <<Err("UnexpectedTag"), log>>
         ELSE IF c.h.con = 0 THEN <<Err("ConstructExpected"), log>>
         ELSE IF op = "explg" THEN UBody(ex, 4, rules, s, c, c.h, 0, log)
         ELSE LET u == U(ex[3], rules, s, c.lo, c.hi, log) IN
              IF u[1].s # OkS THEN u
              ELSE <<Ok(Obj(c.h, [Group("tagged", <<u[1].v>>) EXCEPT !.n = <<c.h.cls>>, !.d = c.h.tag,
                                                                   !.o = -1]), c.nx), u[2]>>
    [] op = "implg" ->
         LET c == Container(rules, s, i, e) IN
         IF c.s # OkS THEN <<c, log>>
         ELSE IF c.h.tag # TagOf(ex[3]) THEN <<Err("UnexpectedTag"), log>>
         ELSE UBody(ex, 4, rules, s, c, [c.h EXCEPT !.len = c.hi - c.lo + 1], MaxRecursion, log)
    [] op = "opt" ->
         LET u == U(ex[2], rules, s, i, e, log) r == u[1] IN
         IF r.s # OkS THEN <<Ok(NoneObj, i), u[2]>>
         ELSE <<Ok([r.v EXCEPT !.k = "opt", !.n = << >>, !.d = << >>, !.o = -2, !.ch = <<r.v>>], r.nx), u[2]>>
    [] OTHER -> <<P(ex, rules, s, i, e), log>>

----------------------------------------------------------------------------
(* A parser object is used again and again, each time on what it left: the    *)
(* results so far, the log, and whether it has stopped.                       *)
RECURSIVE Session(_, _, _, _, _, _, _)
Session(ex, rules, s, i, times, out, log) ==
  IF times = 0 THEN <<out, log>>
  ELSE LET u == U(ex, rules, s, i, Len(s), log)
           o == Append(out, [r |-> u[1], log |-> Len(u[2])])
       IN IF u[1].s # OkS THEN <<o, u[2]>>
          ELSE Session(ex, rules, s, u[1].nx, times - 1, o, u[2])
=============================================================================
