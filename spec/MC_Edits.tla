------------------------------ MODULE MC_Edits ------------------------------
(***************************************************************************)
(* Expressions of every form, and each of them with one token taken away,  *)
(* doubled, replaced by any other or followed by any other, or with two    *)
(* neighbours swapped: what is still an expression and what it means.      *)
(***************************************************************************)
EXTENDS Forms
VARIABLES chunk, bad

Bases == << "a = 2", "not a = 'x'", "a and not b", "( a or b ) and c", "a = 2 or b > 1.5 and c", "a in ( 1 , 2 )", "a not in ( 'x' , b + 1 )", "a contains_any ( 'x' , 'y' )",
            "a contains_all ( 1 , 2 , 3 )", "a 1 to 5", "a 1.5 to 2 and b", "- a + 2 * 3", "( a - b ) / c ^ 2 % d", "min ( a , 2 , b * 3 ) > 1", "len ( a ) = 2",
            "days_elapsed ( a ) <= 7", "sum ( a , - b ) + int ( 'x' )", "a = true and b != false", "a >= 1.2.3", "a < 2024-02-29", "= 2", "> 1 and < 5", "a.b.c != null",
            "not ( a in ( 1 ) or b 1 to 2 )", "avg ( 1 , 2 ) = mean ( 1.5 , median ( a ) ) and mode ( b , 1 ) = max ( 2 , 3 )" >>
Words0 == [k \in 1..Len(Bases) |-> SelectSeq(SplitAll(Codes(Bases[k]), 32), LAMBDA w : w # << >>)]
Others == << Codes("a"), Codes("2"), Codes("1.5"), Codes("'x'"), Codes("true"), Codes("1.2.3"), Codes("2024-02-29"), Codes("-"), Codes("+"), Codes("/"), Codes("="), Codes("<="),
             Codes("and"), Codes("||"), Codes("not"), Codes("in"), Codes("contains_all"), Codes("to"), Codes("len"), Codes("("), Codes(")"), Codes(","), Codes("12.3.4"), Codes("null") >>
NO == Len(Others)
Edits == 3 + 2 * NO
MaxLen == 32

Without(ts, p) == SubSeq(ts, 1, p - 1) \o SubSeq(ts, p + 1, Len(ts))
After(ts, p, t) == SubSeq(ts, 1, p) \o << t >> \o SubSeq(ts, p + 1, Len(ts))
Edited(ts, p, e) ==
  CASE e = 0 -> Without(ts, p)
    [] e = 1 -> After(ts, p, ts[p])
    [] e = 2 -> (IF p < Len(ts) THEN [ts EXCEPT ![p] = ts[p + 1], ![p + 1] = ts[p]] ELSE ts)
    [] e <= 2 + NO -> [ts EXCEPT ![p] = Others[e - 2]]
    [] OTHER -> After(ts, p - 1, Others[e - 2 - NO])
Basis(i) == Words0[1 + Digit(i, 1, Len(Bases))]
At(i) == Digit(i, Len(Bases), MaxLen)
Edit(i) == Digit(i, Len(Bases) * MaxLen, Edits)
Def(i) == IF Digit(i, Len(Bases) * MaxLen * Edits, 2) = 1 THEN Codes("d") ELSE << >>
Real(i) == At(i) < Len(Basis(i))
Text1(i) == Words(Edited(Basis(i), At(i) + 1, Edit(i)))
EditCount == Len(Bases) * MaxLen * Edits * 2
MapData == << Entry(Codes("a"), VInt(NumOf(3))), Entry(Codes("b"), VDec(MkDec(NumOf(15), 1))), Entry(Codes("c"), VBool(TRUE)), Entry(Codes("d"), VInt(NumOf(2))) >>

AllMap == MapOf([data |-> MapData], 739900)
EditVectors(i) ==
  IF ~Real(i) THEN << >>
  ELSE << Call("P", Text1(i), Def(i), << >>) >>
       \o (IF (i \div 7) % 3 = 0 THEN << IF (i \div 21) % 2 = 0 THEN Call("B", Text1(i), Def(i), MapData) ELSE Call("A", Text1(i), << >>, MapData) >> ELSE << >>)
\* the data type a comparison records depends on brackets around an operand, nothing else does
Printed(n) == Parse(Show(n, 0), << >>)
SameButBrackets(n, q) == q.ok /\ Show(q.v, 0) = Show(n, 0) /\ EvalB(q.v, AllMap) = EvalB(n, AllMap) /\ EvalA(q.v, AllMap) = EvalA(n, AllMap)
EditBroken(i) ==
  IF ~Real(i) THEN {}
  ELSE LET p == Parse(Text1(i), Def(i)) IN
       (IF p.ok => SameButBrackets(p.v, Printed(p.v)) THEN {} ELSE {"writing a parsed tree and parsing it again"})
       \cup (IF Def(i) # << >> /\ Parse(Text1(i), << >>).ok => p = Parse(Text1(i), << >>) THEN {} ELSE {"the default field completes, it never changes"})
       \cup (IF p.ok /\ Parse(Text1(i) \o Codes(" )"), Def(i)).ok THEN {"a bracket that closes nothing"} ELSE {})

INSTANCE Grid WITH Count <- EditCount, Vectors <- EditVectors, Broken <- EditBroken
=============================================================================
