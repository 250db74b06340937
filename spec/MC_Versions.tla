---------------------------- MODULE MC_Versions -----------------------------
(***************************************************************************)
(* Versions with numbers, qualifiers and separators of every sort, compared*)
(* as version objects and as the texts of strings, numbers and dates.      *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Pieces == << "", "0", "1", "2", "10", "01", "000", "99999999999999999999", "a", "b", "m", "alpha", "beta", "RC", "cr", "ga", "Final", "snapshot", "sp", "x", "xyz", "_", "." >>
Seps == << "", ".", "-" >>
NP == Len(Pieces)
\* a text of three pieces; the first is a number in two cases of three
TextCount == 3 * 9 * NP * NP
Text3(i) ==
  LET first == << "1", "2", "" >> IN
  Codes(first[1 + (i % 3)]) \o Codes(Seps[1 + ((i \div 3) % 3)]) \o Codes(Pieces[1 + ((i \div 9) % NP)]) \o Codes(Seps[1 + ((i \div (9 * NP)) % 3)]) \o Codes(Pieces[1 + ((i \div (27 * NP)) % NP)])

\* a case: a text and one out of its neighbourhood (one piece changed) or from far away
Shifts == << 0, 1, 2, 3, 6, 9, 18, 27, 9 * NP, 18 * NP, 27 * NP, 54 * NP, 9 * 7, 27 * NP * 5, 4391, 7919 >>
VersionCount == TextCount * Len(Shifts)
A(i) == Text3(i % TextCount)
B(i) == Text3(((i % TextCount) + Shifts[1 + i \div TextCount]) % TextCount)
C(i) == Text3((i * 31 + 17) % TextCount)

Ver(t) == VVer(t)
\* what the text may be held in
Holder(t, f) == CASE f % 3 = 0 -> VVer(t) [] f % 3 = 1 -> VStr(t) [] OTHER -> [k |-> "oth", t |-> t]
VersionVectors(i) ==
  LET a == A(i) b == B(i) h == 1 + (i % 2)
      data == << Entry(Codes("v"), Ver(a)), Entry(Codes("w"), Ver(b)), Entry(Codes("s"), Holder(b, h)), Entry(Codes("r"), Holder(a, h)),
                 Entry(Codes("l"), ListV(<< Holder(C(i), h), Holder(b, 0) >>)) >>
      ops == << "=", ">", "<=", "!=", ">=", "<" >>
  IN << Call("B", Codes("v > w"), << >>, data),
        Call("B", Codes("v = w"), << >>, data),
        Call("B", Codes("v ") \o Codes(ops[1 + (i % 6)]) \o Codes(" s"), << >>, data),
        Call("B", Codes("r ") \o Codes(ops[1 + ((i \div 6) % 6)]) \o Codes(" w"), << >>, data),
        Call("B", Codes("v in (w, s, 1.2.3)"), << >>, data),
        Call("B", (IF i % 2 = 0 THEN Codes("r") ELSE Codes("v")) \o Codes(IF i % 4 < 2 THEN " > 1.0.1" ELSE " <= 2.0.10"), << >>, data) >>

Cmp3(x, y) == IF CompareOp(">", x, y).v THEN 1 ELSE IF CompareOp("<", x, y).v THEN -1 ELSE 0
VersionBroken(i) ==
  LET a == Ver(A(i)) b == Ver(B(i)) c == Ver(C(i)) s == VStr(B(i))
      plain(v) == IsVersionText(v.t)
  IN (IF CompareOp(">", a, b).ok /\ CompareOp("=", a, b).ok THEN {} ELSE {"any two texts compare as versions"})
     \cup (IF Cmp3(a, b) = -Cmp3(b, a) /\ Cmp3(a, a) = 0 THEN {} ELSE {"the order of versions is antisymmetric"})
     \cup (IF CompareOp("=", a, b).v = (Cmp3(a, b) = 0) THEN {} ELSE {"versions are equal where neither is greater"})
     \cup (IF CompareOp("=", a, Ver(Upper(a.t))).v THEN {} ELSE {"case does not matter"})
     \cup (IF CompareOp(">", a, s).v = CompareOp(">", a, b).v THEN {} ELSE {"a text is ordered against a version as a version"})
     \cup (IF CompareOp("=", a, s).v = (a.t = s.t) THEN {} ELSE {"a text equals a version of that text"})
     \cup (IF plain(a) /\ plain(b) /\ plain(c) /\ Cmp3(a, b) <= 0 /\ Cmp3(b, c) <= 0 => Cmp3(a, c) <= 0 THEN {} ELSE {"the order of plain versions is transitive"})
     \cup (IF plain(a) => Cmp3(a, Ver(a.t \o Codes(".0"))) = 0 /\ Cmp3(a, Ver(a.t \o Codes(".1"))) = -1 /\ Cmp3(a, Ver(a.t \o Codes("-rc"))) = 1 THEN {} ELSE {"trailing zeros do not count, further numbers do, a release candidate comes first"})

INSTANCE Grid WITH Count <- VersionCount, Vectors <- VersionVectors, Broken <- VersionBroken
=============================================================================
