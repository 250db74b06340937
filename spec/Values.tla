------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Runtime values, their data types, the conversions between them and the  *)
(* comparison and equality relations (ValueUtils, ContainerDataType,       *)
(* data types and comparison operators).                                    *)
(*                                                                         *)
(* A value is a record whose field k names its kind:                       *)
(*   int long (n)  dec (d)  flt (t: text of a Float/Double)  bool (b)      *)
(*   str ver oth (t)  date (y mo d)  dt (y mo d h mi s ns)                 *)
(*   list (e, t)  arr (e)  map (e, t)  null                                *)
(* t is what toString() gives.                                             *)
(***************************************************************************)
EXTENDS Versions, Floats, FiniteSets

Ok(v) == [ok |-> TRUE, v |-> v]
Err(e) == [ok |-> FALSE, e |-> e]
Fail == Err("fail")              \* some exception inside the Failure
NotFound == Err("notfound")      \* DataNotFoundException inside the Failure
Unspec == Err("unspec")          \* the specification does not constrain the outcome

VInt(n) == [k |-> "int", n |-> n]
VLong(n) == [k |-> "long", n |-> n]
VDec(d) == [k |-> "dec", d |-> d]
VBool(b) == [k |-> "bool", b |-> b]
VStr(t) == [k |-> "str", t |-> t]
VVer(t) == [k |-> "ver", t |-> t]
VDate(y, mo, d) == [k |-> "date", y |-> y, mo |-> mo, d |-> d]
VDt(y, mo, d, h, mi, s) == [k |-> "dt", y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s, ns |-> 0]
VNull == [k |-> "null"]

-----------------------------------------------------------------------------
(* calendar *)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days since 0000-03-01 in the proleptic Gregorian calendar
EpochDay(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      mm == IF m <= 2 THEN m + 9 ELSE m - 3
  IN 365 * yy + (yy \div 4) - (yy \div 100) + (yy \div 400) + ((153 * mm + 2) \div 5) + d - 1

NextDay(v) == IF v.d < DaysIn(v.y, v.mo) THEN VDate(v.y, v.mo, v.d + 1) ELSE IF v.mo < 12 THEN VDate(v.y, v.mo + 1, 1) ELSE VDate(v.y + 1, 1, 1)

NoDate == [ok |-> FALSE]
DigitsAt(t, i, n) == \A j \in i..(i + n - 1) : IsDigitC(t[j])
\* the year of a date's text: four digits, or a plus sign and more than four; 0 if it is none
YearOfText(t) ==
  IF Len(t) = 4 /\ AllDigits(t) THEN SmallNat(t)
  ELSE IF Len(t) < 6 \/ Len(t) > 20 \/ t[1] # 43 THEN 0
  ELSE LET ds == SubSeq(t, 2, Len(t)) IN
       IF ~AllDigits(ds) THEN 0
       ELSE LET n == NText(NOfDigits(ds)) IN IF Len(n) > 9 THEN 0 ELSE SmallNat(n)
\* formatter "yyyy-MM-dd" with the SMART resolver: day 29..31 is clamped to the month's last day
DateOfText(t) ==
  LET n == Len(t) IN
  IF n < 10 THEN NoDate
  ELSE IF ~(t[n - 5] = 45 /\ DigitsAt(t, n - 4, 2) /\ t[n - 2] = 45 /\ DigitsAt(t, n - 1, 2)) THEN NoDate
  ELSE LET y == YearOfText(SubSeq(t, 1, n - 6)) m == SmallNat(SubSeq(t, n - 4, n - 3)) d == SmallNat(SubSeq(t, n - 1, n)) IN
       IF y < 1 \/ m < 1 \/ m > 12 \/ d < 1 \/ d > 31 THEN NoDate
       ELSE [ok |-> TRUE, v |-> VDate(y, m, IF d > DaysIn(y, m) THEN DaysIn(y, m) ELSE d), exact |-> d <= DaysIn(y, m)]
\* formatter "yyyy-MM-dd HH:mm:ss"; 24:00:00 is the start of the next day
DateTimeOfText(t) ==
  LET n == Len(t) IN
  IF n < 19 THEN NoDate
  ELSE IF ~(t[n - 8] = 32 /\ DigitsAt(t, n - 7, 2) /\ t[n - 5] = 58 /\ DigitsAt(t, n - 4, 2) /\ t[n - 2] = 58 /\ DigitsAt(t, n - 1, 2)) THEN NoDate
  ELSE LET dd == DateOfText(SubSeq(t, 1, n - 9)) h == SmallNat(SubSeq(t, n - 7, n - 6)) mi == SmallNat(SubSeq(t, n - 4, n - 3)) s == SmallNat(SubSeq(t, n - 1, n)) IN
       IF ~dd.ok \/ mi > 59 \/ s > 59 THEN NoDate
       ELSE IF h = 24 /\ mi = 0 /\ s = 0 THEN (LET x == NextDay(dd.v) IN [ok |-> TRUE, v |-> VDt(x.y, x.mo, x.d, 0, 0, 0)])
       ELSE IF h > 23 THEN NoDate
       ELSE [ok |-> TRUE, v |-> VDt(dd.v.y, dd.v.mo, dd.v.d, h, mi, s)]

P2(n) == PadLeft(SmallNatText(n), 2)
Abs(n) == IF n < 0 THEN -n ELSE n
DateText(v) == (IF v.y > 9999 THEN << 43 >> ELSE IF v.y < 0 THEN << 45 >> ELSE << >>) \o PadLeft(SmallNatText(Abs(v.y)), 4) \o << 45 >> \o P2(v.mo) \o << 45 >> \o P2(v.d)

-----------------------------------------------------------------------------
(* data types *)
TypeNames == {"STRING", "INTEGER", "LONG", "DECIMAL", "VERSION", "BOOLEAN", "DATE", "DATETIME"}
Priority(ty) == CASE ty = "STRING" -> 8 [] ty = "DATETIME" -> 7 [] ty = "DATE" -> 6 [] ty = "DECIMAL" -> 5
                  [] ty = "LONG" -> 4 [] ty = "INTEGER" -> 3 [] ty = "VERSION" -> 2 [] ty = "BOOLEAN" -> 1
IsNumeric(ty) == ty \in {"INTEGER", "LONG", "DECIMAL", "VERSION"}

TypeOf(v) ==
  CASE v.k = "bool" -> "BOOLEAN"
    [] v.k \in {"flt", "dec"} -> "DECIMAL"
    [] v.k = "int" -> "INTEGER"
    [] v.k = "long" -> "LONG"
    [] v.k = "ver" -> "VERSION"
    [] v.k = "date" -> "DATE"
    [] v.k = "dt" -> "DATETIME"
    [] v.k = "str" -> (IF DateTimeOfText(v.t).ok THEN "DATETIME" ELSE IF DateOfText(v.t).ok THEN "DATE" ELSE "STRING")
    [] OTHER -> "STRING"

TrueText == Codes("true")
FalseText == Codes("false")
NullText == Codes("null")

\* nanoseconds in groups of three digits
NanoText(ns) == IF ns = 0 THEN << >>
                ELSE << 46 >> \o (IF ns % 1000000 = 0 THEN PadLeft(SmallNatText(ns \div 1000000), 3)
                                  ELSE IF ns % 1000 = 0 THEN PadLeft(SmallNatText(ns \div 1000), 6) ELSE PadLeft(SmallNatText(ns), 9))
\* String.valueOf
ToText(v) ==
  CASE v.k \in {"int", "long"} -> IText(v.n)
    [] v.k = "dec" -> DText(v.d)
    [] v.k = "bool" -> (IF v.b THEN TrueText ELSE FalseText)
    [] v.k = "date" -> DateText(v)
    [] v.k = "dt" -> DateText(v) \o << 84 >> \o P2(v.h) \o << 58 >> \o P2(v.mi)
                          \o (IF v.s = 0 /\ v.ns = 0 THEN << >> ELSE << 58 >> \o P2(v.s) \o NanoText(v.ns))
    [] v.k = "null" -> NullText
    [] OTHER -> v.t
\* the text of an array is an identity hash: never specified
HasText(v) == v.k # "arr"

\* versions made of digits and dots, as version literals are
IsVersionText(t) == t # << >> /\ (\A i \in 1..Len(t) : IsDigitC(t[i]) \/ t[i] = 46) /\ t[1] # 46 /\ t[Len(t)] # 46
                    /\ \A i \in 1..(Len(t) - 1) : ~(t[i] = 46 /\ t[i + 1] = 46)

\* conversion of a value to a data type: Ok(comparable) or Fail / Unspec
Conv(ty, v) ==
  IF v.k = "null" THEN Fail
  ELSE IF ty = "STRING" THEN (IF HasText(v) THEN Ok(ToText(v)) ELSE Unspec)
  ELSE IF ~HasText(v) THEN (IF ty = "VERSION" THEN Unspec ELSE Fail)
  ELSE IF ty = "INTEGER" THEN
    (IF v.k = "int" THEN Ok(v.n)
     ELSE LET d == DecOfText(ToText(v)) IN
          IF d.ok /\ DIsIntegral(d.d) /\ FitsInt(DTrunc(d.d)) THEN Ok(DTrunc(d.d)) ELSE Fail)
  ELSE IF ty = "LONG" THEN
    (IF v.k \in {"int", "long"} THEN Ok(v.n)
     ELSE LET d == DecOfText(ToText(v)) IN
          IF d.ok /\ DIsIntegral(d.d) /\ FitsLong(DTrunc(d.d)) THEN Ok(DTrunc(d.d)) ELSE Fail)
  ELSE IF ty = "DECIMAL" THEN
    (IF v.k = "dec" THEN Ok(v.d)
     ELSE IF v.k \in {"int", "long"} THEN Ok(DecOfNum(v.n))
     ELSE LET d == DecOfText(ToText(v)) IN IF d.ok THEN Ok(d.d) ELSE Fail)
  ELSE IF ty = "VERSION" THEN
    (LET t == ToText(v) IN IF HasVersion(t) THEN Ok(VersionOf(t)) ELSE Unspec)
  ELSE IF ty = "BOOLEAN" THEN
    (IF v.k = "bool" THEN Ok(v.b)
     ELSE LET t == Lower(ToText(v)) IN IF t = TrueText THEN Ok(TRUE) ELSE IF t = FalseText THEN Ok(FALSE) ELSE Fail)
  ELSE IF ty = "DATE" THEN
    (IF v.k = "date" THEN Ok(v) ELSE LET d == DateOfText(ToText(v)) IN IF d.ok THEN Ok(d.v) ELSE Fail)
  ELSE (IF v.k = "dt" THEN Ok(v) ELSE LET d == DateTimeOfText(ToText(v)) IN IF d.ok THEN Ok(d.v) ELSE Fail)

IntCmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
FirstOf(c1, c2) == IF c1 # 0 THEN c1 ELSE c2
DateCmp(a, b) == FirstOf(IntCmp(a.y, b.y), IntCmp(a.mo * 31 + a.d, b.mo * 31 + b.d))
\* order of two comparables of one data type
CmpIn(ty, a, b) ==
  CASE ty = "STRING" -> TextCmp(a, b)
    [] ty \in {"INTEGER", "LONG"} -> ICmp(a, b)
    [] ty = "DECIMAL" -> DCmp(a, b)
    [] ty = "VERSION" -> VersionCmp(a, b)
    [] ty = "BOOLEAN" -> (IF a = b THEN 0 ELSE IF b THEN -1 ELSE 1)
    [] ty = "DATE" -> DateCmp(a, b)
    [] ty = "DATETIME" -> FirstOf(DateCmp(a, b), FirstOf(IntCmp(a.h * 3600 + a.mi * 60 + a.s, b.h * 3600 + b.mi * 60 + b.s), IntCmp(a.ns, b.ns)))

HigherType(a, b) == IF Priority(a) > Priority(b) THEN a ELSE b
\* data type two operands are ordered in
OrderType(a, b) ==
  IF IsNumeric(a) /\ ~IsNumeric(b) THEN a
  ELSE IF IsNumeric(b) /\ ~IsNumeric(a) THEN b
  ELSE HigherType(a, b)

\* comparison of x and y as values of data types tx and ty, in data type ct
CompareAs(ct, x, y) ==
  LET a == Conv(ct, x) b == Conv(ct, y) IN
  IF ~a.ok THEN (IF a.e = "unspec" /\ ~b.ok /\ b.e = "fail" THEN Fail ELSE a)
  ELSE IF ~b.ok THEN b ELSE Ok(CmpIn(ct, a.v, b.v))

\* a Float or Double that is not a number has no decimal value
Unusable(v) == v.k = "flt" /\ ~DecOfText(v.t).ok

EqualTyped(x, tx, y, ty) ==
  LET c == CompareAs(HigherType(tx, ty), x, y) IN IF c.ok THEN Ok(c.v = 0) ELSE c
Equal(x, y) == IF Unusable(x) THEN Fail ELSE EqualTyped(x, TypeOf(x), y, TypeOf(y))

OrderHolds(op, c) == CASE op = ">" -> c > 0 [] op = ">=" -> c >= 0 [] op = "<" -> c < 0 [] op = "<=" -> c <= 0
OrderTyped(op, x, tx, y, ty) ==
  IF tx = "BOOLEAN" \/ ty = "BOOLEAN" THEN Fail
  ELSE LET c == CompareAs(OrderType(tx, ty), x, y) IN IF c.ok THEN Ok(OrderHolds(op, c.v)) ELSE c
Order(op, x, y) == IF Unusable(x) THEN Fail ELSE OrderTyped(op, x, TypeOf(x), y, TypeOf(y))

\* outcome of  x op y  for the six comparators: Ok(BOOLEAN), Fail or Unspec
CompareOp(op, x, y) ==
  CASE op = "=" -> Equal(x, y)
    [] op = "!=" -> (LET e == Equal(x, y) IN IF e.ok THEN Ok(~e.v) ELSE e)
    [] OTHER -> Order(op, x, y)

-----------------------------------------------------------------------------
(* field lookup: ValueUtils.getValueFromMap; data is a map value *)
RECURSIVE MapGetAt(_, _, _)
MapGetAt(es, key, i) == IF i > Len(es) THEN VNull ELSE IF es[i].key = key THEN es[i].v ELSE MapGetAt(es, key, i + 1)
MapGet(m, key) == MapGetAt(m.e, key, 1)

RECURSIVE LookupPath(_, _, _)
LookupPath(ps, i, m) ==
  LET v == MapGet(m, ps[i]) IN
  IF v.k = "null" THEN NotFound
  ELSE IF i = Len(ps) THEN Ok(v)
  ELSE IF v.k = "map" THEN LookupPath(ps, i + 1, v)
  ELSE NotFound
\* a path of dots only has no segment at all
Lookup(f, m) == LET ps == JavaSplit(f, 46) IN IF ps = << >> THEN Fail ELSE LookupPath(ps, 1, m)
=============================================================================
