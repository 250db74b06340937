---------------------------- MODULE MC_Literals ----------------------------
(***************************************************************************)
(* Numbers around every boundary, versions, and every day and time of      *)
(* chosen years and months, possible or not: the value each literal has,   *)
(* and how it compares with the same text and the same value in the data.  *)
(***************************************************************************)
EXTENDS Forms
VARIABLES chunk, bad

Wholes == << "0", "1", "7", "9", "10", "99", "127", "128", "32767", "65536", "9999", "10000", "99999999", "100000000", "2147483646", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296",
             "9007199254740991", "9007199254740992", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551616",
             "10000000000000000000000000", "12345678901234567890123456789012345678901" >>
Leads == << "", "0", "000", "0000000000000000000000" >>
Tails == << "", ".0", ".5", ".00", ".10", ".1", ".25", ".999999999999999999", ".0000000000000000000000000000001", ".1.2", ".0.0", "." , ".x", "e1", "L", ".1f" >>
NumCount == Len(Wholes) * Len(Leads) * Len(Tails)
NumText(i) == Codes(Leads[1 + Digit(i, Len(Wholes), Len(Leads))]) \o Codes(Wholes[1 + Digit(i, 1, Len(Wholes))]) \o Codes(Tails[1 + Digit(i, Len(Wholes) * Len(Leads), Len(Tails))])

Years == << 0, 1, 4, 100, 400, 1582, 1899, 1900, 1970, 1999, 2000, 2023, 2024, 2100, 9999 >>
DayCount == Len(Years) * 14 * 34
YearOf(j) == Years[1 + Digit(j, 34 * 14, Len(Years))]
DayText(j) == PadLeft(SmallNatText(YearOf(j)), 4) \o << 45 >> \o P2(Digit(j, 34, 14)) \o << 45 >> \o P2(Digit(j, 1, 34))

Hours == << 0, 1, 9, 10, 12, 19, 20, 23, 24, 29 >>
Mins == << 0, 1, 9, 30, 59, 60, 99 >>
TimeDays == << "2024-02-29", "2023-02-29", "2023-02-30", "1999-12-31", "2024-13-01", "2024-04-31", "0001-01-01" >>
TimeCount == Len(Hours) * Len(Mins) * Len(Mins) * Len(TimeDays)
TimeText(j) == Codes(TimeDays[1 + Digit(j, Len(Hours) * Len(Mins) * Len(Mins), Len(TimeDays))]) \o << 32 >> \o P2(Hours[1 + Digit(j, 1, Len(Hours))]) \o << 58 >>
               \o P2(Mins[1 + Digit(j, Len(Hours), Len(Mins))]) \o << 58 >> \o P2(Mins[1 + Digit(j, Len(Hours) * Len(Mins), Len(Mins))])

LitCount == NumCount + DayCount + TimeCount
IsNum(i) == i < NumCount
IsDay(i) == ~IsNum(i) /\ i < NumCount + DayCount
Text1(i) == IF IsNum(i) THEN NumText(i) ELSE IF IsDay(i) THEN DayText(i - NumCount) ELSE TimeText(i - NumCount - DayCount)
Lit(i) == Parse(Text1(i), << >>)
\* the value the text stands for, if it stands for one
Value(i) == IF Lit(i).ok /\ Lit(i).v.t = "lit" THEN << Lit(i).v.v >> ELSE << >>

X == Codes("x")
LitVectors(i) ==
  LET t == Text1(i) IN
  << Call("P", t, << >>, << >>), Call("B", Codes("x = ") \o t, << >>, << Entry(X, VStr(t)) >>), Call("A", t, << >>, << Entry(t, VInt(NumOf(7))) >>) >>
  \o (IF Value(i) = << >> THEN << >>
      ELSE << Call("B", Codes("x = ") \o t, << >>, << Entry(X, Value(i)[1]) >>), Call("B", Codes("x >= ") \o t \o Codes(" and not (x < ") \o t \o Codes(")"), << >>, << Entry(X, Value(i)[1]) >>),
              Call("B", t \o Codes(" != '") \o t \o Codes("'"), << >>, << >>), Call("B", Codes("x in (1, ") \o t \o Codes(")"), << >>, << Entry(X, Value(i)[1]) >>) >>)
  \o (IF IsNum(i) THEN << Call("A", Codes("-") \o t, << >>, << >>), Call("A", t \o Codes(" + x"), << >>, << Entry(X, VStr(t)) >>), Call("B", Codes("x ") \o t \o Codes(" to ") \o t, << >>, << Entry(X, VStr(t)) >>) >>
      ELSE << Call("A", Codes("days_elapsed(") \o t \o Codes(")"), << >>, << >>), Call("A", Codes("days_elapsed(x)"), << >>, << Entry(X, VStr(t)) >>) >>)

\* one day after another, counted by the calendar
Days(v) == EpochDay(v.y, v.mo, v.d)
AllZero(t) == \A k \in 1..Len(t) : t[k] = 48
LitBroken(i) ==
  LET t == Text1(i) vs == Value(i) IN
  (IF vs # << >> => (vs[1].k \in {"date", "dt"} /\ Equal(vs[1], VStr(t)) = Ok(TRUE)) \/ (vs[1].k \notin {"date", "dt"} /\ Equal(vs[1], VStr(t)) = Ok(ToText(vs[1]) = t)) THEN {} ELSE {"a literal equals the text it is written as"})
  \cup (IF vs # << >> /\ vs[1].k \in {"int", "long"} => (LET z == t IN NOfDigits(z) = vs[1].n.m) THEN {} ELSE {"digits are worth what they are worth"})
  \cup (IF vs # << >> /\ vs[1].k = "date" => Days(NextDay(vs[1])) = Days(vs[1]) + 1 /\ Days(VDate(vs[1].y + 400, vs[1].mo, vs[1].d)) = Days(vs[1]) + 146097 THEN {} ELSE {"days follow one another"})
  \cup (IF IsDay(i) => (Value(i) # << >>) = (LET j == i - NumCount IN YearOf(j) >= 1 /\ Digit(j, 34, 14) \in 1..12 /\ Digit(j, 1, 34) \in 1..31) THEN {} ELSE {"which days exist"})
  \cup (IF vs # << >> /\ vs[1].k = "dec" => Parse(t \o << 48 >>, << >>).ok /\ DCmp(Parse(t \o << 48 >>, << >>).v.v.d, vs[1].d) = 0 THEN {} ELSE {"trailing zeros add nothing"})

INSTANCE Grid WITH Count <- LitCount, Vectors <- LitVectors, Broken <- LitBroken
=============================================================================
