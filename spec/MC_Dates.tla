------------------------------ MODULE MC_Dates ------------------------------
(***************************************************************************)
(* Texts that are dates and times of day, and texts that are nearly so:    *)
(* every part in each of its spellings, right or wrong.  What is a date,   *)
(* and which one, is told here part by part.                               *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

\* spelling, and the number it stands for (-1: none)
Years == << << "2024", 2024 >>, << "2023", 2023 >>, << "1900", 1900 >>, << "2000", 2000 >>, << "0001", 1 >>, << "0000", -1 >>, << "9999", 9999 >>, << "24", -1 >>, << "12024", -1 >>, << "+12024", 12024 >>,
            << "-2024", -1 >>, << "02024", -1 >>, << "+2024", -1 >>, << " 2024", -1 >>, << "2O24", -1 >> >>
Months == << << "01", 1 >>, << "02", 2 >>, << "1", -1 >>, << "00", -1 >>, << "12", 12 >>, << "13", -1 >>, << "04", 4 >>, << "012", -1 >> >>
Days == << << "01", 1 >>, << "28", 28 >>, << "29", 29 >>, << "30", 30 >>, << "31", 31 >>, << "1", -1 >>, << "00", -1 >>, << "32", -1 >>, << "001", -1 >>, << "1 ", -1 >> >>
\* time of day in seconds (-1: no time, no date either; -2: only a date)
Times == << << "", -2 >>, << " 00:00:00", 0 >>, << " 10:20:30", 37230 >>, << " 23:59:59", 86399 >>, << " 24:00:00", 86400 >>, << " 24:00:01", -1 >>, << " 9:20:30", -1 >>, << " 10:5:30", -1 >>, << " 10:20:3", -1 >>,
            << " 10:60:00", -1 >>, << " 10:20:60", -1 >>, << "T10:20:30", -1 >>, << " 10:20", -1 >>, << "  10:20:30", -1 >>, << " 10:20:30.0", -1 >>, << " 10:20:30 ", -1 >>, << "Z", -1 >>, << " ", -1 >>,
            << "00:00:00", -1 >>, << " 010:20:30", -1 >>, << " 10:20:30Z", -1 >>, << " 10.20.30", -1 >>, << " 09:08:07", 32887 >> >>
DashNo == << "-", "/", "" >>
NY == Len(Years)
NM == Len(Months)
ND == Len(Days)
NT == Len(Times)
\* the last cases have other dashes
DatesCount == NY * NM * ND * (NT + 2)
Y(i) == Years[1 + Digit(i, 1, NY)]
M(i) == Months[1 + Digit(i, NY, NM)]
DD(i) == Days[1 + Digit(i, NY * NM, ND)]
TD(i) == LET q == i \div (NY * NM * ND) IN IF q < NT THEN Times[q + 1] ELSE Times[1]
Dash(i) == LET q == i \div (NY * NM * ND) IN IF q < NT THEN "-" ELSE DashNo[q - NT + 2]
DateOnly(i) == Codes(Y(i)[1]) \o Codes(Dash(i)) \o Codes(M(i)[1]) \o Codes(Dash(i)) \o Codes(DD(i)[1])
TextOf(i) == DateOnly(i) \o Codes(TD(i)[1])
GoodDate(i) == Y(i)[2] > 0 /\ M(i)[2] > 0 /\ DD(i)[2] > 0 /\ Dash(i) = "-"
InMonth(y, m, d) == d <= (CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0 THEN 29 ELSE 28) [] OTHER -> 31)
Exists(i) == GoodDate(i) /\ InMonth(Y(i)[2], M(i)[2], DD(i)[2])
IsDate(i) == GoodDate(i) /\ TD(i)[2] = -2
IsDateTime(i) == GoodDate(i) /\ TD(i)[2] >= 0

\* what it is compared with
Fixed == << VDate(2024, 2, 29), VDate(2023, 2, 28), VDt(2024, 1, 1, 10, 20, 30), VDt(2024, 2, 29, 0, 0, 0), VDate(2024, 1, 1), VDt(1900, 2, 28, 23, 59, 59), VDate(12024, 12, 31), S("2024-01-01"), S("2024-02-29 10:20:30"), VDt(2023, 3, 1, 0, 0, 0) >>
Meant(i) == LET y == Y(i)[2] m == M(i)[2] d == DD(i)[2] s == TD(i)[2] IN
            IF Exists(i) /\ s = -2 THEN VDate(y, m, d) ELSE IF Exists(i) /\ s \in 0..86399 THEN VDt(y, m, d, s \div 3600, (s \div 60) % 60, s % 60) ELSE Fixed[1 + (i % Len(Fixed))]
Other(i, q) == IF q = 0 THEN Meant(i) ELSE Fixed[1 + ((i + i \div NY + i \div (NY * NM * ND)) % Len(Fixed))]
Cmps == << "=", "!=", "<", ">=", ">", "<=" >>
Quoted(i) == << 39 >> \o TextOf(i) \o << 39 >>
DatesVectors(i) ==
  LET q == (i \div NY) % 2 op == Codes(Cmps[1 + ((i + i \div 7) % 6)]) o == Other(i, q)
      d == << Entry(Codes("x"), S("")), Entry(Codes("d"), o), Entry(Codes("xs"), ListV(<< VStr(TextOf(i)), S("q") >>)) >> e == [d EXCEPT ![1] = Entry(Codes("x"), VStr(TextOf(i)))]
  IN << Call("B", Words(IF i % 2 = 0 THEN << Codes("x"), op, Codes("d") >> ELSE << Codes("d"), op, Codes("x") >>), << >>, e),
        CASE i % 7 = 0 -> Call("A", Codes("days_elapsed(x)"), << >>, e)
          [] i % 7 = 1 -> Call("A", Codes("days_elapsed(") \o Quoted(i) \o Codes(")"), << >>, e)
          [] i % 7 = 2 -> Call("B", Words(<< Codes("d"), op, Quoted(i) >>), << >>, e)
          [] i % 7 = 3 -> Call("B", Words(<< Codes("d"), op, TextOf(i) >>), << >>, e)
          [] i % 7 = 4 -> Call("B", Codes("d in (x, 'q')"), << >>, e)
          [] i % 7 = 5 -> Call("B", Codes("xs contains_any (d)"), << >>, e)
          [] OTHER -> Call("A", Codes("x + d"), << >>, e) >>
DatesBroken(i) ==
  LET t == TextOf(i) d == DateOfText(t) dt == DateTimeOfText(t) v == VStr(t) IN
  (IF d.ok = IsDate(i) /\ dt.ok = IsDateTime(i) THEN {} ELSE {"a date is a date part by part"})
  \cup (IF TypeOf(v) = (IF IsDateTime(i) THEN "DATETIME" ELSE IF IsDate(i) THEN "DATE" ELSE "STRING") THEN {} ELSE {"the kind of the text"})
  \cup (IF Exists(i) /\ TD(i)[2] \in -2..86399 /\ TD(i)[2] # -1 => LET c == CompareOp("=", v, Meant(i)) IN c.ok /\ c.v THEN {} ELSE {"the date that is meant"})
  \cup (IF d.ok => d.exact = Exists(i) THEN {} ELSE {"days that exist"})
  \cup (LET o == Other(i, 1) a == CompareOp("<", v, o) b == CompareOp(">=", v, o) IN IF a.ok = b.ok /\ (a.ok => a.v # b.v) THEN {} ELSE {"one order"})
  \cup (IF Exists(i) /\ IsDate(i) THEN
          LET o == VDate(2024, 2, 29) c == CompareOp("<", v, o) IN
          IF c.ok /\ c.v = (EpochDay(Y(i)[2], M(i)[2], DD(i)[2]) < EpochDay(2024, 2, 29)) THEN {} ELSE {"days in order"}
        ELSE {})

INSTANCE Grid WITH Count <- DatesCount, Vectors <- DatesVectors, Broken <- DatesBroken
=============================================================================
