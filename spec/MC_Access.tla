------------------------------ MODULE MC_Access ------------------------------
(***************************************************************************)
(* Every use of a field path over data maps nested up to three levels: a   *)
(* path is found or not found whatever uses it, and the null checks tell   *)
(* which.                                                                  *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Absent == VNull
Leaf == << Absent, I("5"), S("null"), S(""), VBool(TRUE), VBool(FALSE), ListV(<< I("5"), I("1") >>), MapV(<< >>), D("5.0"), VDate(2024, 1, 1),
           [k |-> "oth", t |-> Codes("Optional.empty")], [k |-> "oth", t |-> Codes("")], [k |-> "oth", t |-> Codes("NULL")] >>
NLeaf == Len(Leaf)
KeyA == Codes("a")
KeyB == Codes("b")
M1(v) == MapV(<< Entry(KeyA, v) >>)
M2(v) == MapV(<< Entry(KeyB, v), Entry(KeyA, I("1")) >>)
\* the value of the top level key a: a leaf, or a leaf inside one or two maps
NTop == NLeaf * 5
Top(i) == LET v == Leaf[1 + (i % NLeaf)] IN
          CASE i \div NLeaf = 0 -> v [] i \div NLeaf = 1 -> M1(v) [] i \div NLeaf = 2 -> M2(v) [] i \div NLeaf = 3 -> M1(M2(v)) [] OTHER -> M2(M1(v))
Paths == << "a", "a.a", "a.b", "a.a.b", "a.b.a", "a.a.a", "b", "b.a", "_a", "a.", "a..b", "A", "a.a.b.c", "null", "c" >>
Uses == << << "B", "$" >>, << "B", "not $" >>, << "B", "$ = 5" >>, << "B", "5 != $" >>, << "B", "$ = null" >>, << "B", "$ != null" >>, << "B", "NULL = $" >>, << "B", "$ > 4" >>,
           << "B", "$ in (1, 5)" >>, << "B", "$ not in (1, 5)" >>, << "B", "b in (1, $)" >>, << "B", "$ contains_any (5, 6)" >>, << "B", "$ contains_all (5, 1)" >>, << "B", "$ 1 to 5" >>,
           << "B", "$ = 5 or true" >>, << "B", "true or $" >>, << "B", "false and $ = 5" >>, << "B", "($ + 1) = 6" >>, << "B", "min($, 5) = 5" >>, << "A", "$" >>, << "A", "-$" >>, << "A", "$ + 1" >>,
           << "A", "1 - $" >>, << "A", "max($, 2)" >>, << "A", "len($)" >>, << "A", "int($)" >>, << "A", "days_elapsed($)" >>, << "B", "$ = $" >>, << "B", "$ = 'null'" >> >>

\* a use with its place holder (code 36) filled
RECURSIVE Fill(_, _, _)
Fill(t, p, i) == IF i > Len(t) THEN << >> ELSE (IF t[i] = 36 THEN p ELSE << t[i] >>) \o Fill(t, p, i + 1)
AccessCount == NTop * Len(Paths) * Len(Uses)
PathOf(i) == Codes(Paths[1 + Digit(i, 1, Len(Paths))])
UseOf(i) == Uses[1 + Digit(i, Len(Paths), Len(Uses))]
DataOf(i) == LET v == Top(i \div (Len(Paths) * Len(Uses))) IN
             (IF v.k = "null" THEN << >> ELSE << Entry(KeyA, v) >>) \o << Entry(KeyB, I("5")), Entry(Codes("a.b"), I("7")), Entry(Codes("_a"), I("5")), Entry(Codes("c"), VNull) >>
\* a present value of whatever kind is not null
NV == Len(Values)
NoArray(v) == IF v.k = "arr" THEN ListV(v.e) ELSE v
Inside(v0, w) == LET v == IF w = 0 THEN v0 ELSE NoArray(v0) IN CASE w = 0 -> v [] w = 1 -> M1(v) [] OTHER -> M2(M1(v))
PathTo(w) == CASE w = 0 -> KeyA [] w = 1 -> Codes("a.a") [] OTHER -> Codes("a.b.a")
PresentUses == << "$ = null", "null = $", "$ != null", "NULL != $", "not $ = Null", "$ = null or $ != null", "b = 5 and $ = null" >>
PresentAt(i) == << Entry(KeyB, I("5")), Entry(KeyA, Inside(Values[1 + (i % NV)], i \div NV)) >>
PresentCount == NV * 3
TotalCount == AccessCount + PresentCount
AccessVectors(j) ==
  IF j >= AccessCount THEN LET i == j - AccessCount IN [k \in 1..Len(PresentUses) |-> Call("B", Fill(Codes(PresentUses[k]), PathTo(i \div NV), 1), << >>, PresentAt(i))]
  ELSE LET i == j IN << Call(UseOf(i)[1], Fill(Codes(UseOf(i)[2]), PathOf(i), 1), << >>, DataOf(i)) >>

MapAt(i) == [k |-> "map", e |-> DataOf(i), t |-> << >>, td |-> 740000]
Outcome(x, i) == LET p == Parse(x, << >>) IN EvalB(p.v, MapAt(i))
AccessBroken(i) ==
  IF i >= AccessCount
  THEN LET j == i - AccessCount IN
       (IF Values[1 + (j % NV)].k = "null" \/ EvalB(Parse(Fill(Codes("$ = null"), PathTo(j \div NV), 1), << >>).v, [k |-> "map", e |-> PresentAt(j), t |-> << >>, td |-> 740000]) = Ok(FALSE) THEN {} ELSE {"a present value is not null"})
  ELSE
  LET p == PathOf(i) isNull == Outcome(p \o Codes(" = null"), i) notNull == Outcome(p \o Codes(" != null"), i) there == Lookup(p, MapAt(i)) IN
  IF Digit(i, Len(Paths), Len(Uses)) # 0 \/ Lower(p) = NullText THEN {}
  ELSE (IF isNull.ok /\ notNull.ok /\ isNull.v # notNull.v THEN {} ELSE {"= null and != null are complements and never fail"})
       \cup (IF isNull.ok => isNull.v = ~there.ok THEN {} ELSE {"null means not found"})
       \cup (IF there.ok \/ \A k \in 1..Len(Uses) :
                   LET x == Fill(Codes(Uses[k][2]), p, 1) n == Parse(x, << >>).v
                       o == IF Uses[k][1] = "B" THEN EvalB(n, MapAt(i)) ELSE EvalA(n, MapAt(i))
                   IN o.ok \/ o.e = "notfound" THEN {} ELSE {"a missing field fails as not found"})

INSTANCE Grid WITH Count <- TotalCount, Vectors <- AccessVectors, Broken <- AccessBroken
=============================================================================
