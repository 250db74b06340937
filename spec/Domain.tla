------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* A catalogue of values of every kind, with the neighbours and look-alikes*)
(* that comparison, equality, conversion and arithmetic have to tell apart.*)
(***************************************************************************)
EXTENDS Forms

N(t) == LET neg == t[1] = 45 IN MkNum(IF neg THEN -1 ELSE 1, NOfDigits(IF neg THEN SubSeq(t, 2, Len(t)) ELSE t))
I(s) == VInt(N(Codes(s)))
L(s) == VLong(N(Codes(s)))
D(s) == VDec(DecOfText(Codes(s)).d)
F(s) == [k |-> "flt", t |-> Codes(s)]
S(s) == VStr(Codes(s))
V(s) == VVer(Codes(s))
\* the text of a list or map as java.util writes it
RECURSIVE ItemTexts(_, _)
ItemTexts(vs, i) == IF i > Len(vs) THEN << >> ELSE << ToText(vs[i]) >> \o ItemTexts(vs, i + 1)
ListV(vs) == [k |-> "list", e |-> vs, t |-> << 91 >> \o Join(ItemTexts(vs, 1), << 44, 32 >>, 1) \o << 93 >>]
ArrV(vs) == [k |-> "arr", e |-> vs]
RECURSIVE PairTexts(_, _)
PairTexts(es, i) == IF i > Len(es) THEN << >> ELSE << es[i].key \o << 61 >> \o ToText(es[i].v) >> \o PairTexts(es, i + 1)
MapV(es) == [k |-> "map", e |-> es, t |-> << 123 >> \o Join(PairTexts(es, 1), << 44, 32 >>, 1) \o << 125 >>]

Ints == << I("0"), I("1"), I("-1"), I("2"), I("9"), I("10"), I("5"), I("-2"), I("64"), I("2147483647"), I("-2147483648") >>
Longs == << L("0"), L("5"), L("10"), L("-1"), L("2147483647"), L("2147483648"), L("-2147483649"), L("9007199254740992"), L("9007199254740993"),
            L("9223372036854775807"), L("9223372036854775806"), L("-9223372036854775808") >>
Decs == << D("0.0"), D("0.1"), D("0.10"), D("1.0"), D("1.5"), D("1.50"), D("-1.5"), D("10.000"), D("9.99"), D("5.0000000000000000000000001"), D("0.333"), D("2147483647.5"),
           D("9007199254740993.0"), D("9007199254740992.5"), D("9223372036854775807.1"), D("9223372036854775808"), D("100000000000000000000000000000.5"), D("1E+3"), D("-0.0001") >>
Floats == << F("0.1"), F("1.5"), F("5.0"), F("-0.0"), F("1.0E10"), F("9.007199254740992E15"), F("NaN"), F("Infinity") >>
Strings == << S(""), S("a"), S("A"), S("abc"), S("abcd"), S("b"), S(" a"), S("5"), S("5.0"), S("05"), S("-1"), S("10"), S("1.5"), S("1.50"), S("true"), S("False"), S("null"),
              S("2024-01-01"), S("2024-1-1"), S("2024-02-30"), S("2024-01-01 10:00:00"), S("1.2.3"), S("1.2"), S("9223372036854775808"), S("1e3"), S("it's"), S("+12345-01-01"), S("2024-01-01 1:00:00"), S("2024-01-01T10:00:00"), S("9007199254740993"), S("1.2.3-rc"), VStr(<< 233 >>),
              VStr(<< 55357, 56832 >>), VStr(<< 65533 >>) >>
Versions == << V("1.2.3"), V("1.2.10"), V("1.10.0"), V("1.2.3.0"), V("1.2.3.1"), V("10.0.0"), V("2.0.0"), V("5.0.0"), V("5"), V("1.5"), V("1.2.3-rc") >>
Bools == << VBool(TRUE), VBool(FALSE) >>
Dates == << VDate(2024, 1, 1), VDate(2023, 12, 31), VDate(2024, 2, 29), VDate(2024, 10, 9), VDate(999, 12, 31), VDate(12345, 1, 1), VDate(-44, 3, 15) >>
DateTimes == << VDt(2024, 1, 1, 0, 0, 0), VDt(2024, 1, 1, 10, 0, 0), VDt(2024, 1, 1, 9, 59, 59), VDt(2023, 12, 31, 23, 59, 59), [VDt(2024, 1, 1, 10, 0, 0) EXCEPT !.ns = 1],
                [VDt(2024, 1, 1, 0, 0, 0) EXCEPT !.ns = 500000000] >>
Compound == << ListV(<< I("1"), I("2") >>), ListV(<< >>), ListV(<< S("a") >>), ArrV(<< I("1") >>), MapV(<< Entry(Codes("k"), I("1")) >>) >>

Scalars == Ints \o Longs \o Decs \o Floats \o Strings \o Versions \o Bools \o Dates \o DateTimes
Values == Scalars \o Compound
Numbers == Ints \o Longs \o Decs \o Floats
Usable(v) == ~Unusable(v)
=============================================================================
