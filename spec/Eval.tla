-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Meaning of expression trees over a data map (BooleanExpressionEvaluator,*)
(* ArithmeticExpressionEvaluator, operators and functions).                  *)
(*   EvalB(n, m) : Ok(BOOLEAN) or an error outcome                         *)
(*   EvalA(n, m) : Ok(value)   or an error outcome                         *)
(* m is a map value carrying in addition td, the epoch day of "today".     *)
(***************************************************************************)
EXTENDS Parser

-----------------------------------------------------------------------------
(* results of arithmetic *)
CastLong(n) == IF FitsInt(n) THEN VInt(n) ELSE VLong(n)
\* a whole number keeps the smallest kind that holds it; anything else stays a decimal
CastDec(d) ==
  IF DIsIntegral(d) THEN LET n == DTrunc(d) IN IF FitsLong(n) THEN CastLong(n) ELSE VDec(d) ELSE VDec(d)
LongOrFail(n) == IF FitsLong(n) THEN Ok(VLong(n)) ELSE Fail
CastLongOrFail(n) == IF FitsLong(n) THEN Ok(CastLong(n)) ELSE Fail

IsWhole(ty) == ty \in {"INTEGER", "LONG"}
IsNumber(ty) == ty \in {"INTEGER", "LONG", "DECIMAL"}
IsText(ty) == ty \in {"STRING", "VERSION", "BOOLEAN"}
\* numeric value of an operand of numeric type
DecOf(v) == Conv("DECIMAL", v).v
NumOfV(v) == v.n

TwoTo53 == NOfDigits(Codes("9007199254740992"))
RECURSIVE PowAt(_, _, _), NPow(_, _), Twos(_, _)
\* m^e as a natural number, or NotNum once it leaves 2^53
PowAt(m, e, acc) ==
  IF e = 0 THEN [ok |-> TRUE, m |-> acc]
  ELSE LET x == NMul(acc, m) IN IF NCmp(x, TwoTo53) > 0 THEN NotNum ELSE PowAt(m, e - 1, x)
NPow(m, e) == IF e = 0 THEN << 1 >> ELSE LET h == NPow(m, e \div 2) IN IF e % 2 = 0 THEN NMul(h, h) ELSE NMul(m, NMul(h, h))
\* m = odd * 2^k
Twos(m, k) == IF m[1] % 2 = 1 THEN [odd |-> m, k |-> k] ELSE Twos(NDivSmall(m, 2)[1], k + 1)
\* b^e of whole numbers is exact where the result is a number a double holds; too large for a double is a failure
Power(x, y) ==
  LET dx == DecOf(x) dy == DecOf(y) IN
  IF dx.u.s < 0 /\ ~DIsIntegral(dy) /\ Len(NText(dy.u.m)) <= 15 THEN Fail
  ELSE IF ~DIsIntegral(dx) /\ dy.u.s = 0 THEN Ok(VInt(NumOf(1)))
  ELSE IF dx.u.s = 0 /\ ~DIsIntegral(dy) THEN (IF dy.u.s < 0 THEN Fail ELSE Ok(VInt(Num0)))
  ELSE IF ~(DIsIntegral(dx) /\ DIsIntegral(dy)) THEN Unspec
  ELSE LET b == DTrunc(dx) e == DTrunc(dy) IN
       IF e.s = 0 THEN Ok(VInt(NumOf(1)))
       ELSE IF NCmp(e.m, TwoTo53) > 0 \/ Len(b.m) > 20 THEN Unspec
       ELSE IF b.s = 0 THEN (IF e.s < 0 THEN Fail ELSE Ok(VInt(b)))
       ELSE LET sg == IF e.m[1] % 2 = 0 THEN 1 ELSE b.s IN
       IF b.m = << 1 >> THEN Ok(VInt(NumOf(sg)))
       ELSE IF Len(e.m) > 1 THEN (IF e.s < 0 THEN Unspec ELSE Fail)
       ELSE LET t == Twos(b.m, 0) n == IntOfN(e.m) IN
            IF e.s < 0
            THEN IF t.odd = << 1 >> /\ t.k * n <= 1000 THEN Ok(VDec(MkDec([s |-> sg, m |-> NPow(<< 5 >>, t.k * n)], t.k * n))) ELSE Unspec
            ELSE IF t.k * n >= 1024 \/ 3 * (Len(NText(b.m)) - 1) * n >= 1024 THEN Fail
            ELSE LET p == IF t.odd = << 1 >> THEN [ok |-> TRUE, m |-> t.odd] ELSE PowAt(t.odd, n, << 1 >>) IN
                 IF ~p.ok THEN Unspec
                 ELSE LET r == [s |-> sg, m |-> NMul(p.m, NPow(<< 2 >>, t.k * n))] IN
                      IF t.k * n > 960 THEN Unspec ELSE Ok(IF FitsInt(r) THEN VInt(r) ELSE VDec(DecOfNum(r)))

\* any other power: what a result close to x^y looks like, the exponent being the fraction p / q
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
NoPower == [ok |-> FALSE]
NearPower(x, y) ==
  LET dx == DecOf(x) dy == DStrip(DecOf(y)) IN
  IF dx.u.s = 0 \/ dy.u.s = 0 \/ dy.sc > 4 \/ Len(NText(dx.u.m)) > 60 \/ Len(NText(dy.u.m)) > 8 \/ dy.sc < -4 \/ dx.sc > 300 \/ dx.sc < -300 THEN NoPower
  ELSE LET n == IntOfN(IF dy.sc < 0 THEN NMulPow10(dy.u.m, -dy.sc) ELSE dy.u.m)
           w == IF dy.sc <= 0 THEN 1 ELSE 10 ^ dy.sc
           g == Gcd(n, w)
       IN IF w \div g > 100 \/ n \div g > 10000 \/ (dx.u.s < 0 /\ w \div g > 1) THEN NoPower
          ELSE [ok |-> TRUE, s |-> IF dx.u.s < 0 /\ (n \div g) % 2 = 1 THEN -1 ELSE 1, x |-> FPow(FOf(dx), n \div g), q |-> w \div g, inv |-> dy.u.s < 0]
\* has the number v the sign and, closely, the size that P calls for?  Powers beyond a double's range fail, those below it are zero.
PowerSize(P) == LET k == FDigits(P.x) \div P.q IN IF P.inv THEN -k ELSE k
IsPower(P, v) ==
  \/ PowerSize(P) > 305 \/ PowerSize(P) < -290
  \/ LET d == DecOf(v) IN
     /\ d.u.s = P.s
     /\ LET z == FPow(FOf(d), P.q) IN IF P.inv THEN FNear(FMul(z, P.x), FOne) ELSE FNear(z, P.x)
PowerFails(P) == PowerSize(P) > 312
PowerVanishes(P) == PowerSize(P) < -340

Concat(x, y) == IF HasText(x) /\ HasText(y) THEN Ok(VStr(ToText(x) \o ToText(y))) ELSE Unspec

Arith(op, x, y) ==
  LET tx == TypeOf(x) ty == TypeOf(y) IN
  \* a Float or Double that is no number is rejected by arithmetic; whether it has a text to concatenate is left open
  IF (Unusable(x) \/ Unusable(y)) /\ op = "+" /\ (IsText(tx) \/ IsText(ty)) THEN Unspec
  ELSE IF op = "+" /\ tx \notin {"DATE", "DATETIME"} /\ ty \notin {"DATE", "DATETIME"} /\ (IsText(tx) \/ IsText(ty)) THEN Concat(x, y)
  ELSE IF ~(IsNumber(tx) /\ IsNumber(ty)) \/ Unusable(x) \/ Unusable(y) THEN Fail
  ELSE CASE op = "+" -> (IF IsWhole(tx) /\ IsWhole(ty) THEN CastLongOrFail(IAdd(x.n, y.n)) ELSE Ok(VDec(DAdd(DecOf(x), DecOf(y)))))
         [] op = "-" -> (IF ~(IsWhole(tx) /\ IsWhole(ty)) THEN Ok(VDec(DSub(DecOf(x), DecOf(y))))
                         ELSE IF tx = "LONG" \/ ty = "LONG" THEN LongOrFail(ISub(x.n, y.n)) ELSE Ok(CastLong(ISub(x.n, y.n))))
         [] op = "*" -> (IF IsWhole(tx) /\ IsWhole(ty) THEN CastLongOrFail(IMul(x.n, y.n)) ELSE Ok(VDec(DMul(DecOf(x), DecOf(y)))))
         [] op = "/" -> (IF DecOf(y).u.s = 0 THEN Fail ELSE Ok(CastDec(DDivDown(DecOf(x), DecOf(y), 3))))
         [] op = "%" -> (IF ~(IsWhole(tx) /\ IsWhole(ty)) \/ y.n.s = 0 THEN Fail
                         ELSE Ok(IF tx = "LONG" \/ ty = "LONG" THEN VLong(IRem(x.n, y.n)) ELSE VInt(IRem(x.n, y.n))))
         [] op = "^" -> Power(x, y)

Negate(x) ==
  LET tx == TypeOf(x) IN
  IF ~IsNumber(tx) \/ Unusable(x) THEN Fail
  ELSE CASE tx = "DECIMAL" -> Ok(VDec(DNeg(DecOf(x))))
         [] tx = "LONG" -> LongOrFail(INeg(x.n))
         [] OTHER -> Ok(CastLong(INeg(x.n)))

-----------------------------------------------------------------------------
(* functions over a non empty sequence of values *)
RECURSIVE SumDec(_, _, _), SumNum(_, _, _), PickDec(_, _, _, _), PickNum(_, _, _, _)
SumDec(vs, i, acc) == IF i > Len(vs) THEN acc ELSE SumDec(vs, i + 1, DAdd(acc, DecOf(vs[i])))
SumNum(vs, i, acc) == IF i > Len(vs) THEN acc ELSE SumNum(vs, i + 1, IAdd(acc, vs[i].n))
\* extreme element: w = -1 for the least, 1 for the greatest; the first of equals
PickDec(vs, i, w, best) == IF i > Len(vs) THEN best ELSE LET d == DecOf(vs[i]) IN PickDec(vs, i + 1, w, IF w * DCmp(d, best) > 0 THEN d ELSE best)
PickNum(vs, i, w, best) == IF i > Len(vs) THEN best ELSE PickNum(vs, i + 1, w, IF w * ICmp(vs[i].n, best) > 0 THEN vs[i].n ELSE best)

RECURSIVE InsertDec(_, _, _)
InsertDec(d, s, i) == IF i > Len(s) \/ DCmp(d, s[i]) < 0 THEN SubSeq(s, 1, i - 1) \o << d >> \o SubSeq(s, i, Len(s)) ELSE InsertDec(d, s, i + 1)
RECURSIVE SortDecs(_, _, _)
SortDecs(vs, i, acc) == IF i > Len(vs) THEN acc ELSE SortDecs(vs, i + 1, InsertDec(DecOf(vs[i]), acc, 1))

SameNumber(x, y) == DCmp(DecOf(x), DecOf(y)) = 0
CountUpTo(vs, v, i) == Cardinality({j \in 1..i : SameNumber(vs[j], v)})
\* the value reaching the highest number of occurrences first
ModeOf(vs) ==
  LET n == Len(vs)
      best == CHOOSE c \in 1..n : /\ \E j \in 1..n : CountUpTo(vs, vs[j], n) = c
                                  /\ \A j \in 1..n : CountUpTo(vs, vs[j], n) <= c
      at == CHOOSE i \in 1..n : CountUpTo(vs, vs[i], i) = best /\ \A j \in 1..(i - 1) : CountUpTo(vs, vs[j], j) < best
  IN vs[at]

CallFn(g, vs, m) ==
  LET tys == {TypeOf(vs[i]) : i \in 1..Len(vs)}
      whole == "DECIMAL" \notin tys
      n == Len(vs)
  IN IF vs = << >> THEN Fail
     ELSE IF g = "LEN" /\ (\E i \in 1..n : Unusable(vs[i])) THEN Unspec
     ELSE IF g = "LEN" THEN (IF n = 1 /\ vs[1].k = "str" THEN Ok(VInt(NumOf(Len(vs[1].t)))) ELSE IF n = 1 /\ vs[1].k \in {"arr"} THEN Unspec ELSE Ok(VInt(NumOf(n))))
     ELSE IF g = "DAYS_ELAPSED" THEN
       (IF n # 1 \/ tys # {"DATE"} THEN Fail
        ELSE IF vs[1].k = "date" THEN Ok(VLong(NumOf(m.td - EpochDay(vs[1].y, vs[1].mo, vs[1].d))))
        ELSE LET d == DateOfText(vs[1].t) IN IF d.exact THEN Ok(VLong(NumOf(m.td - EpochDay(d.v.y, d.v.mo, d.v.d)))) ELSE Fail)
     ELSE IF (\E ty \in tys : ~IsNumber(ty)) \/ (\E i \in 1..n : Unusable(vs[i])) THEN Fail
     ELSE CASE g = "INT" -> (IF n # 1 THEN Fail
                             ELSE IF whole THEN Ok(CastLong(vs[1].n)) ELSE Ok(CastDec(DecOfNum(DTrunc(DecOf(vs[1]))))))
            [] g \in {"MIN", "MAX"} ->
                 (LET w == IF g = "MAX" THEN 1 ELSE -1 IN
                  Ok(IF whole THEN CastLong(PickNum(vs, 2, w, vs[1].n)) ELSE CastDec(PickDec(vs, 2, w, DecOf(vs[1])))))
            [] g = "SUM" -> (IF ~whole THEN Ok(CastDec(SumDec(vs, 1, DecOfNum(Num0))))
                             ELSE CastLongOrFail(SumNum(vs, 1, Num0)))
            [] g \in {"AVG", "MEAN"} -> Ok(CastDec(DDivDown(SumDec(vs, 1, DecOfNum(Num0)), DecOfNum(NumOf(n)), 3)))
            [] g = "MEDIAN" ->
                 (LET s == SortDecs(vs, 1, << >>) IN
                  Ok(CastDec(IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE DDivDown(DAdd(s[n \div 2], s[n \div 2 + 1]), DecOfNum(NumOf(2)), 2))))
            [] g = "MODE" -> Ok(CastDec(DecOf(ModeOf(vs))))

-----------------------------------------------------------------------------
RECURSIVE Flatten(_, _)
\* list values give their elements
Flatten(vs, i) == IF i > Len(vs) THEN << >> ELSE (IF vs[i].k = "list" THEN vs[i].e ELSE << vs[i] >>) \o Flatten(vs, i + 1)

IsArithNode(n) == n.t \in {"field", "lit", "neg", "arith", "fn"}

RECURSIVE EvalA(_, _), EvalB(_, _), EvalArgs(_, _, _, _), EvalItems(_, _, _, _)

\* arguments from left to right; the first error is the outcome
EvalArgs(ns, i, m, acc) ==
  IF i > Len(ns) THEN Ok(acc)
  ELSE LET a == EvalA(ns[i], m) IN IF a.ok THEN EvalArgs(ns, i + 1, m, Append(acc, a.v)) ELSE a

EvalA(n, m) ==
  CASE n.t = "field" -> Lookup(n.f, m)
    [] n.t = "lit" -> Ok(n.v)
    [] n.t = "neg" -> (LET a == EvalA(n.l, m) IN IF a.ok THEN Negate(a.v) ELSE a)
    [] n.t = "arith" ->
         (LET a == EvalA(n.l, m) IN
          IF ~a.ok THEN a ELSE LET b == EvalA(n.r, m) IN IF ~b.ok THEN b ELSE Arith(n.op, a.v, b.v))
    [] n.t = "fn" ->
         (LET a == EvalArgs(n.args, 1, m, << >>) IN
          IF ~a.ok THEN a
          ELSE IF n.g = "LEN" /\ Len(a.v) = 1 /\ a.v[1].k = "list" THEN Ok(VInt(NumOf(Len(a.v[1].e))))
          ELSE CallFn(n.g, Flatten(a.v, 1), m))
    [] OTHER -> Fail

\* the field of a boolean position
BoolField(f, m) == LET a == Lookup(f, m) IN IF ~a.ok THEN a ELSE IF a.v.k = "bool" THEN Ok(a.v.b) ELSE Fail

\* an operand of a comparison
EvalOperand(n, m) ==
  IF IsArithNode(n) THEN EvalA(n, m)
  ELSE LET a == EvalB(n, m) IN IF a.ok THEN Ok(VBool(a.v)) ELSE a

EvalItems(ns, i, m, acc) ==
  IF i > Len(ns) THEN Ok(Flatten(acc, 1))
  ELSE LET a == IF IsArithNode(ns[i]) THEN EvalA(ns[i], m)
                ELSE LET b == EvalB(ns[i], m) IN IF b.ok THEN Ok(VBool(b.v)) ELSE b
       IN IF a.ok THEN EvalItems(ns, i + 1, m, Append(acc, a.v)) ELSE a

\* membership: equality with the items from left to right, up to the first match
RECURSIVE Member(_, _, _)
Member(x, vs, i) ==
  IF i > Len(vs) THEN Ok(FALSE)
  ELSE LET e == Equal(x, vs[i]) IN IF ~e.ok \/ e.v THEN e ELSE Member(x, vs, i + 1)

\* the elements of a collection or array are matched by their text; a null among them matches nothing
ContainsOp(op, es, vs) ==
  IF (\E i \in 1..Len(es) : es[i].k = "arr") \/ (\E i \in 1..Len(vs) : vs[i].k \in {"null", "arr"}) THEN Unspec
  ELSE LET texts == {ToText(es[i]) : i \in {j \in 1..Len(es) : es[j].k # "null"}} IN
       Ok(IF op = "CONTAINS_ANY" THEN \E i \in 1..Len(vs) : ToText(vs[i]) \in texts ELSE \A i \in 1..Len(vs) : ToText(vs[i]) \in texts)

EvalB(n, m) ==
  CASE n.t = "cmp" ->
         (IF n.op \in {"=", "!="} /\ (IsNullField(n.l) \/ IsNullField(n.r)) THEN
            LET o == IF IsNullField(n.r) THEN n.l ELSE n.r
                a == IF o.t = "field" THEN Lookup(o.f, m) ELSE EvalOperand(o, m)
                missing == o.t = "field" /\ ~a.ok /\ a.e = "notfound"
            IN IF a.ok \/ missing THEN Ok(missing = (n.op = "=")) ELSE a
          ELSE LET a == EvalOperand(n.l, m) IN
               IF ~a.ok THEN a ELSE LET b == EvalOperand(n.r, m) IN IF ~b.ok THEN b ELSE CompareOp(n.op, a.v, b.v))
    [] n.t = "range" ->
         (LET a == Lookup(n.f, m) IN
          IF ~a.ok THEN a
          ELSE LET lo == CompareOp(">=", a.v, n.lo) hi == CompareOp("<=", a.v, n.hi) IN
               IF ~lo.ok THEN lo ELSE IF ~hi.ok THEN hi ELSE Ok(lo.v /\ hi.v))
    [] n.t = "in" ->
         (LET a == Lookup(n.f, m) IN
          IF ~a.ok THEN a ELSE LET vs == EvalItems(n.args, 1, m, << >>) IN IF ~vs.ok THEN vs ELSE Member(a.v, vs.v, 1))
    [] n.t = "arr" ->
         (LET a == Lookup(n.f, m) IN
          IF ~a.ok THEN a
          ELSE LET vs == EvalItems(n.args, 1, m, << >>) IN
               IF ~vs.ok THEN vs
               ELSE IF Cardinality({TypeOf(vs.v[i]) : i \in 1..Len(vs.v)}) > 1 THEN Fail
               ELSE IF a.v.k \notin {"list", "arr"} THEN Fail
               ELSE ContainsOp(n.op, a.v.e, vs.v))
    [] n.t = "not" -> (LET a == EvalB(n.l, m) IN IF a.ok THEN Ok(~a.v) ELSE a)
    [] n.t = "logic" ->
         (LET a == EvalB(n.l, m) IN
          IF ~a.ok \/ a.v = (n.op = "OR") THEN a ELSE EvalB(n.r, m))
    [] n.t = "field" -> BoolField(n.f, m)
    [] n.t = "lit" -> (IF n.v.k = "bool" THEN Ok(n.v.b) ELSE BoolField(ToText(n.v), m))
    [] OTHER -> Fail

-----------------------------------------------------------------------------
(* the top level names an evaluation may read from the data map *)
KeyOf(f) == LET ps == JavaSplit(f, 46) IN IF ps = << >> THEN << >> ELSE ps[1]
RECURSIVE AllReads(_), ArgReads(_, _), OutcomeReads(_, _)
ArgReads(ns, i) == IF i > Len(ns) THEN {} ELSE AllReads(ns[i]) \cup ArgReads(ns, i + 1)
AllReads(n) ==
  CASE n.t = "field" -> {KeyOf(n.f)}
    [] n.t = "lit" -> {KeyOf(ToText(n.v))}
    [] n.t \in {"neg", "not"} -> AllReads(n.l)
    [] n.t \in {"arith", "cmp", "logic"} -> AllReads(n.l) \cup AllReads(n.r)
    [] n.t = "fn" -> ArgReads(n.args, 1)
    [] n.t \in {"in", "arr"} -> {KeyOf(n.f)} \cup ArgReads(n.args, 1)
    [] n.t = "range" -> {KeyOf(n.f)}
\* an AND or OR decided by its left operand leaves the right one alone: outcome and reads of an evaluation
OutcomeReads(n, m) ==
  CASE n.t = "logic" ->
         (LET l == OutcomeReads(n.l, m) a == l.o IN
          IF ~a.ok /\ a.e = "unspec" THEN [o |-> a, reads |-> l.reads \cup OutcomeReads(n.r, m).reads]
          ELSE IF ~a.ok \/ a.v = (n.op = "OR") THEN l
          ELSE LET r == OutcomeReads(n.r, m) IN [o |-> r.o, reads |-> l.reads \cup r.reads])
    [] n.t = "not" -> (LET l == OutcomeReads(n.l, m) IN [o |-> IF l.o.ok THEN Ok(~l.o.v) ELSE l.o, reads |-> l.reads])
    [] OTHER -> [o |-> EvalB(n, m), reads |-> AllReads(n)]
MayRead(n, m) == OutcomeReads(n, m).reads
=============================================================================
