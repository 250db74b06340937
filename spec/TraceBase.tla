------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* What it means for a recorded call of the library to conform to the      *)
(* specification: its outcome, and the keys it read from its data map.     *)
(***************************************************************************)
EXTENDS Eval, Json, TLC, IOUtils

Canon(v) == IF v.k = "dec" THEN [k |-> "dec", d |-> DStrip(v.d)] ELSE IF v.k \in {"list", "map"} THEN [k |-> v.k, t |-> v.t] ELSE v
RECURSIVE CanonTree(_), CanonSeq(_, _)
CanonSeq(ns, i) == IF i > Len(ns) THEN << >> ELSE << CanonTree(ns[i]) >> \o CanonSeq(ns, i + 1)
CanonTree(n) ==
  CASE n.t = "lit" -> [n EXCEPT !.v = Canon(n.v)]
    [] n.t \in {"neg", "not"} -> [n EXCEPT !.l = CanonTree(n.l)]
    [] n.t \in {"arith", "cmp", "logic"} -> [n EXCEPT !.l = CanonTree(n.l), !.r = CanonTree(n.r)]
    [] n.t \in {"fn", "in", "arr"} -> [n EXCEPT !.args = CanonSeq(n.args, 1)]
    [] n.t = "range" -> [n EXCEPT !.lo = Canon(n.lo), !.hi = Canon(n.hi)]
    [] OTHER -> n

SameV(a, b) == a.k = b.k /\ a = b
MapOf(e, td) == [k |-> "map", e |-> e.data, t |-> << >>, td |-> td]

\* does the projected outcome o of a call match the specified outcome s?
Answered(o) == o.o \notin {"throw", "odd"}
MatchErr(s, o, strict) ==
  CASE s.e = "unspec" -> Answered(o)
    [] s.e = "notfound" -> o.o = "notfound" \/ (~strict /\ o.o = "fail")
    [] OTHER -> o.o \in {"fail", "notfound"}
MatchB(s, o, strict) == IF s.ok THEN o.o = (IF s.v THEN "T" ELSE "F") ELSE MatchErr(s, o, strict)
MatchA(s, o, strict) == IF s.ok THEN o.o = "val" /\ SameV(Canon(s.v), Canon(o.v)) ELSE MatchErr(s, o, strict)
MatchP(s, o) == IF s.ok THEN o.o = "tree" /\ CanonTree(o.t) = CanonTree(s.v) ELSE MatchErr(s, o, FALSE)

\* an exponentiation whose result is only close to the exact one
CloseEnough(n, m, o) ==
  n.t # "arith" \/ n.op # "^" \/
  LET a == EvalA(n.l, m) b == EvalA(n.r, m) IN
  (a.ok /\ b.ok /\ IsNumber(TypeOf(a.v)) /\ IsNumber(TypeOf(b.v)) /\ ~Unusable(a.v) /\ ~Unusable(b.v)) =>
    LET P == NearPower(a.v, b.v) IN
    P.ok => (CASE PowerFails(P) -> o.o = "fail"
               [] PowerVanishes(P) -> o.o = "val" /\ SameV(o.v, VInt(Num0))
               [] PowerSize(P) \in -290..305 -> o.o = "val" /\ o.v.k \in {"int", "dec"} /\ IsPower(P, o.v)
               [] OTHER -> TRUE)

Spec1(e, p, td) == IF e.api = "P" \/ ~p.ok THEN p ELSE IF e.api = "B" THEN EvalB(p.v, MapOf(e, td)) ELSE EvalA(p.v, MapOf(e, td))
Match(e, s) == CASE e.api = "B" -> MatchB(s, e.out, TRUE) [] e.api = "A" -> MatchA(s, e.out, TRUE) [] e.api = "P" -> MatchP(s, e.out)

\* may the call e with parse p read these keys from its data map, on one of the days tds?
Range(s) == {s[i] : i \in 1..Len(s)}
ReadsAllowed(e, p, tds, keys) ==
  \/ keys = << >>
  \/ ~p.ok /\ p.e = "unspec"
  \/ e.open
  \/ p.ok /\ e.api = "A" /\ Range(keys) \subseteq AllReads(p.v)
  \/ p.ok /\ e.api = "B" /\ \E d \in 1..Len(tds) : Range(keys) \subseteq MayRead(p.v, MapOf(e, tds[d]))

\* is out what the call e with parse p answers on one of the days tds?
OutcomeConforms(e, p, tds, out) ==
  /\ Answered(out)
  /\ e.open \/ \E i \in 1..Len(tds) :
       LET s == Spec1(e, p, tds[i]) IN
       /\ Match([api |-> e.api, out |-> out], s)
       /\ e.api = "A" /\ p.ok /\ ~s.ok /\ s.e = "unspec" => CloseEnough(p.v, MapOf(e, tds[i]), out)

\* a call with a given answer (module MC_Large)
Conforms(e) ==
  /\ Answered(e.out)
  /\ ~e.mut
  /\ \/ e.open
     \/ "want" \in DOMAIN e /\ Match(e, e.want)
     \/ "want" \notin DOMAIN e /\
        LET p == Parse(e.x, e.def) IN
        /\ OutcomeConforms(e, p, e.td, e.out)
        /\ ReadsAllowed(e, p, e.td, e.rd)
=============================================================================
