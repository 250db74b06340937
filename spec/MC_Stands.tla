------------------------------ MODULE MC_Stands ------------------------------
(***************************************************************************)
(* An arithmetic expression whose result is a text - the empty text, or    *)
(* one that looks like a number, a truth value, a date, a version or a     *)
(* field name - or a number of any kind and scale stands for exactly that  *)
(* value, as a field holding it would.                                     *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Lefts == << S(""), S(" "), S("a"), S("tru"), S("5"), S("0"), S("1.2"), S("2024-01"), S("2024-01-01 10"), S("nu"), S("w"), I("5"), D("1.50"), VBool(TRUE), V("1.2.3"), S("-") >>
Rights == << S(""), S(" "), S("a"), S("e"), S("5"), S(".0"), S(".3"), S("-05"), S(":00:00"), S("ll"), S("w"), I("5"), D("0.10"), VBool(FALSE), V("1.0.0"), L("2147483648") >>
NL == Len(Lefts)
NR == Len(Rights)
Positions == << << "B", "z = $" >>, << "B", "$ != z" >>, << "B", "z < $" >>, << "B", "$ <= z" >>, << "B", "z in ($, 'q')" >>, << "B", "z not in ('q', $)" >>, << "B", "zs contains_any ($)" >>,
                << "B", "zs contains_all ($, $)" >>, << "B", "zs contains_any ('q', $)" >>, << "B", "$ = null" >>, << "B", "null != $" >>, << "B", "not ($ = z)" >>, << "B", "$ = $" >>, << "B", "($ > z) = true" >>,
                << "B", "len($) = 2" >>, << "A", "len($)" >>, << "A", "len($, 1)" >>, << "A", "$ + 1" >>, << "A", "1 + $" >>, << "A", "$ * 1" >>, << "A", "-$" >>, << "A", "min($, 1)" >>, << "A", "int($)" >>,
                << "A", "days_elapsed($)" >>, << "A", "$ + $" >>, << "A", "mode($, 'x', $)" >>, << "B", "z in (1, len($))" >>, << "A", "$" >> >>
NP == Len(Positions)
Fields == << S(""), S("5"), I("5"), D("5.0"), VBool(TRUE), VDate(2024, 1, 5), VDt(2024, 1, 1, 10, 0, 0), V("1.2.3"), S("a"), S(" "), [k |-> "oth", t |-> << >>], L("55") >>
NF == Len(Fields)
Nums == << I("6"), I("4"), I("-3"), I("0"), I("1"), D("1.5"), D("1.50"), D("4.0"), D("0.25"), D("0.000"), L("2147483648"), F("2.5"), S("6"), D("-2.0") >>
NN == Len(Nums)
Ops == << "+", "-", "*", "/", "%", "^" >>
Texts == NL * NR
PerPosition == Texts + NN * NN
StandsCount == PerPosition * NP
Nth(i) == i % PerPosition
Joining(i) == Nth(i) < Texts
X(i) == IF Joining(i) THEN Lefts[1 + Digit(Nth(i), 1, NL)] ELSE Nums[1 + Digit(Nth(i) - Texts, 1, NN)]
Y(i) == IF Joining(i) THEN Rights[1 + Digit(Nth(i), NL, NR)] ELSE Nums[1 + Digit(Nth(i) - Texts, NN, NN)]
Position(i) == Positions[1 + (i \div PerPosition)]
Op(i) == IF Joining(i) THEN "+" ELSE Ops[1 + ((Nth(i) + i \div PerPosition + i \div (7 * NN)) % 6)]
Exact(i) == Arith(Op(i), X(i), Y(i))
\* a number in other kinds and spellings
RECURSIVE NoZeros(_)
NoZeros(t) == IF t[Len(t)] = 48 THEN NoZeros(SubSeq(t, 1, Len(t) - 1)) ELSE IF t[Len(t)] = 46 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
Digits0(v) == IF v.k = "dec" THEN PlainDec([v.d EXCEPT !.u.s = 1]) ELSE ToText(v)
Spelled(v) ==
  LET d == DecOf(v) IN
  << v, VStr(ToText(v)), VStr(ToText(v) \o Codes(".0")), VStr(ToText(v) \o Codes("0")), VDec([u |-> [d.u EXCEPT !.m = NMulPow10(@, 1)], sc |-> d.sc + 1]), VDec(DAdd(d, D("0.001").d)),
     VStr(IF v.k = "dec" /\ d.sc > 0 THEN NoZeros(Digits0(v)) ELSE ToText(v)), IF DStrip(d).sc <= 0 /\ FitsLong(DTrunc(d)) THEN VLong(DTrunc(d)) ELSE I("6"), IF DStrip(d).sc <= 0 /\ FitsInt(DTrunc(d)) THEN VInt(DTrunc(d)) ELSE I("6") >>
\* the field next to it: the text itself, or a value that resembles it
Z(i, q) == IF q = 0 /\ Exact(i).ok THEN Exact(i).v ELSE IF ~Joining(i) /\ Exact(i).ok /\ Exact(i).v.k \in {"int", "long", "dec"} THEN Spelled(Exact(i).v)[1 + ((i + i \div PerPosition + 4 * q) % 9)] ELSE Fields[1 + ((i + i \div NL + 5 * q) % NF)]
RECURSIVE Fill(_, _, _)
Fill(t, p, k) == IF k > Len(t) THEN << >> ELSE (IF t[k] = 36 THEN p ELSE << t[k] >>) \o Fill(t, p, k + 1)
Expr(i) == Paren(Words(<< Operand(Codes("x"), X(i), i % 2 = 0), Codes(Op(i)), Operand(Codes("y"), Y(i), i % 3 = 0) >>))
Text(i) == Fill(Codes(Position(i)[2]), Expr(i), 1)
Data(i, q) == LET z == Z(i, q) IN << Entry(Codes("x"), X(i)), Entry(Codes("y"), Y(i)), Entry(Codes("z"), z), Entry(Codes("zs"), ListV(<< z, S("r") >>)), Entry(Codes("a"), I("1")), Entry(Codes("w"), VBool(TRUE)) >>
StandsVectors(i) == [q \in 1..3 |-> Call(Position(i)[1], Text(i), << >>, Data(i, q - 1))]
Says(api, t, es) == LET p == Parse(t, << >>) m == [k |-> "map", e |-> es, t |-> << >>, td |-> 740000] IN IF ~p.ok THEN p ELSE IF api = "B" THEN EvalB(p.v, m) ELSE EvalA(p.v, m)
StandsBroken(i) ==
  IF ~Exact(i).ok THEN {}
  ELSE UNION {LET t == Fill(Codes(Position(i)[2]), Codes("vv"), 1) es == Append(Data(i, q), Entry(Codes("vv"), Exact(i).v)) IN
              IF Says(Position(i)[1], Text(i), Data(i, q)) = Says(Position(i)[1], t, es) THEN {} ELSE {"an expression stands for its value"} : q \in {0, 1, 2}}

INSTANCE Grid WITH Count <- StandsCount, Vectors <- StandsVectors, Broken <- StandsBroken
=============================================================================
