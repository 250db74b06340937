-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* How values and trees are written as text, and how calls are written out *)
(* for replay.                                                             *)
(***************************************************************************)
EXTENDS TraceBase

Entry(key, v) == [key |-> key, v |-> v]
Call(api, x, def, data) == [api |-> api, x |-> x, def |-> def, data |-> data]

Space == << 32 >>
RECURSIVE Join(_, _, _)
Join(ts, sep, i) == IF i > Len(ts) THEN << >> ELSE (IF i = 1 THEN << >> ELSE sep) \o ts[i] \o Join(ts, sep, i + 1)
Words(ts) == Join(ts, Space, 1)
Paren(t) == << 40 >> \o t \o << 41 >>
ListText(ts) == Paren(Join(ts, << 44, 32 >>, 1))

RECURSIVE RepeatC(_, _)
RepeatC(c, n) == IF n = 0 THEN << >> ELSE Append(RepeatC(c, n - 1), c)

\* digits of a decimal written out, scale > 0
PlainDec(d) == LET ds == NText(d.u.m) n == Len(ds)
                   ps == IF n > d.sc THEN ds ELSE RepeatC(48, d.sc + 1 - n) \o ds
               IN SubSeq(ps, 1, Len(ps) - d.sc) \o << 46 >> \o SubSeq(ps, Len(ps) - d.sc + 1, Len(ps))

\* literal text of a value, << >> if it has none; negative numbers have none
LitText(v) ==
  CASE v.k = "int" -> (IF v.n.s < 0 THEN << >> ELSE IText(v.n))
    [] v.k = "long" -> (IF v.n.s < 0 \/ FitsInt(v.n) THEN << >> ELSE IText(v.n))
    [] v.k = "dec" -> (IF v.d.u.s < 0 \/ v.d.sc <= 0 THEN << >> ELSE PlainDec(v.d))
    [] v.k = "str" -> (IF IndexFrom(v.t, 39, 1) = 0 THEN << 39 >> \o v.t \o << 39 >> ELSE IF IndexFrom(v.t, 34, 1) = 0 THEN << 34 >> \o v.t \o << 34 >> ELSE << >>)
    [] v.k = "bool" -> (IF v.b THEN TrueText ELSE FalseText)
    [] v.k = "ver" -> (IF IsVersionText(v.t) /\ Len(SplitAll(v.t, 46)) >= 3 THEN v.t ELSE << >>)
    [] v.k = "date" -> (IF v.y \in 1..9999 THEN DateText(v) ELSE << >>)
    [] v.k = "dt" -> (IF v.y \in 1..9999 /\ v.ns = 0 THEN DateText(v) \o << 32 >> \o P2(v.h) \o << 58 >> \o P2(v.mi) \o << 58 >> \o P2(v.s) ELSE << >>)
    [] OTHER -> << >>
HasLit(v) == LitText(v) # << >>

\* an operand: the literal where there is one and it is wanted, else a field
Operand(name, v, wantLit) == IF wantLit /\ HasLit(v) THEN LitText(v) ELSE name

-----------------------------------------------------------------------------
(* trees as text, with as few brackets as the grammar needs *)
OpText(op) == CASE op = "AND" -> Codes("and") [] op = "OR" -> Codes("or") [] OTHER -> Codes(op)

RECURSIVE Show(_, _), ShowItems(_, _)
ShowItems(ns, i) == IF i > Len(ns) THEN << >> ELSE << Show(ns[i], 0) >> \o ShowItems(ns, i + 1)
Show(n, lv) ==
  CASE n.t = "field" -> n.f
    [] n.t = "lit" -> LitText(n.v)
    [] n.t = "not" ->
         (IF n.l.t = "in" THEN n.l.f \o Codes(" not in ") \o ListText(ShowItems(n.l.args, 1))
          ELSE Codes("not ") \o (IF n.l.t = "lit" /\ n.l.v.k = "str" /\ \A i \in 1..Len(n.l.v.t) : IsFieldC(n.l.v.t[i]) THEN n.l.v.t ELSE Show(n.l, NotOperandLevel)))
    [] n.t = "neg" -> (LET s == << 45 >> \o Show(n.l, MinusOperandLevel) IN IF lv > MinusOperandLevel THEN Paren(s) ELSE s)
    [] n.t \in {"cmp", "arith", "logic"} ->
         (LET l == Level(n.op) s == Words(<< Show(n.l, l), OpText(n.op), Show(n.r, l + 1) >>) IN IF l < lv THEN Paren(s) ELSE s)
    [] n.t = "fn" -> Lower(Codes(n.g)) \o ListText(ShowItems(n.args, 1))
    [] n.t = "in" -> n.f \o Codes(" in ") \o ListText(ShowItems(n.args, 1))
    [] n.t = "arr" -> n.f \o << 32 >> \o Lower(Codes(n.op)) \o << 32 >> \o ListText(ShowItems(n.args, 1))
    [] n.t = "range" -> Words(<< n.f, LitText(n.lo), Codes("to"), LitText(n.hi) >>)

\* the comparison of two operands, with the data type the parser records
OwnType(n) == IF n.t = "field" THEN "STRING" ELSE n.ty
MkCmp(op, l, r) == [t |-> "cmp", op |-> op, l |-> l, r |-> r,
                    dt |-> IF r.t \in {"field", "lit"} THEN OwnType(r) ELSE IF l.t \in {"field", "lit"} THEN OwnType(l) ELSE "STRING"]
MkBin(op, l, r) == IF op \in Comparators THEN MkCmp(op, l, r) ELSE [t |-> IF op \in ArithOps THEN "arith" ELSE "logic", op |-> op, l |-> l, r |-> r]
MkNot(n) == [t |-> "not", l |-> IF n.t = "field" THEN NLit("STRING", VStr(n.f)) ELSE n]
MkNeg(n) == [t |-> "neg", l |-> n]
MkLit(v) == NLit(IF v.k = "str" THEN "STRING" ELSE TypeOf(v), v)

-----------------------------------------------------------------------------
Digit(i, place, base) == (i \div place) % base
=============================================================================
