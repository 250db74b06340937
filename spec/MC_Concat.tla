------------------------------ MODULE MC_Concat ------------------------------
(***************************************************************************)
(* + over every three values of a catalogue, from the left and from the    *)
(* right: texts are joined in the written order, numbers are added, and    *)
(* nothing is read into a text that looks like a number.                   *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Els == << S("a"), S(""), S(" b "), S("5"), S("2.50"), S("-1"), S("true"), S("null"), S("1.2.3"), S("it's"), VStr(<< 55357, 56832 >>), S("2024-1-1"), S("00"), I("5"), I("-7"), I("0"), L("5000000000"), L("3"), D("2.50"), D("0.1"), D("-0.00"),
          D("100000000000000000000000000000.5"), F("1.5"), F("1.0E10"), F("5.0"), VBool(TRUE), VBool(FALSE), V("1.2.3"), V("1.10.0"), VDate(2024, 1, 1), S("2024-01-01"), VDt(2024, 1, 1, 10, 0, 0), S("2024-01-01 10:00:00"),
          ListV(<< I("1") >>), ListV(<< >>), MapV(<< Entry(Codes("k"), I("1")) >>), [k |-> "oth", t |-> Codes("MONDAY")], [k |-> "oth", t |-> Codes("12")] >>
NE == Len(Els)
ConcatCount == NE * NE * NE * 2
X(i) == Els[1 + Digit(i, 1, NE)]
Y(i) == Els[1 + Digit(i, NE, NE)]
Z(i) == Els[1 + Digit(i, NE * NE, NE)]
Right(i) == Digit(i, NE * NE * NE, 2) = 1
Data(i) == << Entry(Codes("x"), X(i)), Entry(Codes("y"), Y(i)), Entry(Codes("z"), Z(i)) >>
Op(i, k, v) == Operand(<< Codes("x"), Codes("y"), Codes("z") >>[k], v, (i + k) % 3 = 0)
Text1(i) == LET x == Op(i, 1, X(i)) y == Op(i, 2, Y(i)) z == Op(i, 3, Z(i)) IN
            IF Right(i) THEN Words(<< x, Codes("+"), Paren(Words(<< y, Codes("+"), z >>)) >>) ELSE Words(<< x, Codes("+"), y, Codes("+"), z >>)
\* compared with the joined text written as a literal
ConcatVectors(i) == << Call("A", Text1(i), << >>, Data(i)) >>
  \o (IF i % 11 = 0 THEN << Call("B", Words(<< Paren(Text1(i)), Codes("="), Codes("w") >>), << >>, Append(Data(i), Entry(Codes("w"), LET o == EvalA(Parse(Text1(i), << >>).v, [k |-> "map", e |-> Data(i), t |-> << >>, td |-> 0]) IN IF o.ok THEN o.v ELSE S("w")))) >> ELSE << >>)

Plus(a, b) == IF ~a.ok THEN a ELSE IF ~b.ok THEN b ELSE Arith("+", a.v, b.v)
\* texts, versions, booleans and objects without a type, which are not a date written as text
Joins(v) == TypeOf(v) \in {"STRING", "VERSION", "BOOLEAN"}
NoDay(v) == TypeOf(v) \notin {"DATE", "DATETIME"}
ConcatBroken(i) ==
  LET x == X(i) y == Y(i) z == Z(i) m == [k |-> "map", e |-> Data(i), t |-> << >>, td |-> 0]
      o == EvalA(Parse(Text1(i), << >>).v, m)
      all == ToText(x) \o ToText(y) \o ToText(z)
      clean == NoDay(x) /\ NoDay(y) /\ NoDay(z) /\ NoDay(VStr(ToText(x) \o ToText(y))) /\ NoDay(VStr(ToText(y) \o ToText(z)))
      first == IF Right(i) THEN Joins(y) \/ Joins(z) ELSE Joins(x) \/ Joins(y)
  IN (IF o = (IF Right(i) THEN Plus(Ok(x), Plus(Ok(y), Ok(z))) ELSE Plus(Plus(Ok(x), Ok(y)), Ok(z))) THEN {} ELSE {"the written order"})
     \cup (IF clean /\ first => o = Ok(VStr(all)) THEN {} ELSE {"texts are joined as they are"})
     \cup (IF ~NoDay(x) \/ ~NoDay(y) \/ ~NoDay(z) => ~o.ok THEN {} ELSE {"days are not joined"})

INSTANCE Grid WITH Count <- ConcatCount, Vectors <- ConcatVectors, Broken <- ConcatBroken
=============================================================================
