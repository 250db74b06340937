------------------------------ MODULE MC_Pairs ------------------------------
(***************************************************************************)
(* Every function over every ordered pair of the catalogue, as arguments   *)
(* and as elements of collections.                                         *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

\* an array has no text to show inside a collection
IsNoArray(v) == v.k # "arr"
Members == SelectSeq(Values, IsNoArray)
NV == Len(Members)
X(i) == Members[1 + (i \div NV)]
Y(i) == Members[1 + (i % NV)]
Functions == << "LEN", "INT", "DAYS_ELAPSED", "MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE", "LEN" >>
Names == << Codes("x"), Codes("y") >>
\* 0: fields, 1: literals where there are any, 2: one collection, 3: a value and a collection, 4: a collection and a value, 5: two collections, 6: nested in a function
Items(x, y, f) ==
  CASE f = 0 -> << Names[1], Names[2] >>
    [] f = 1 -> << Operand(Names[1], x, TRUE), Operand(Names[2], y, TRUE) >>
    [] f = 2 -> << Codes("both") >>
    [] f = 3 -> << Names[1], Codes("l2") >>
    [] f = 4 -> << Codes("l1"), Names[2] >>
    [] f = 5 -> << Codes("l1"), Codes("none"), Codes("l2") >>
    [] f = 6 -> << Codes("len(x)"), Names[2] >>
Data(x, y) == << Entry(Names[1], x), Entry(Names[2], y), Entry(Codes("both"), ListV(<< x, y >>)), Entry(Codes("l1"), ListV(<< x >>)), Entry(Codes("l2"), ListV(<< y >>)), Entry(Codes("none"), ListV(<< >>)) >>
PairCount == NV * NV
FnOf(i, k) == Functions[1 + ((i + (i \div NV) + 4 * k) % Len(Functions))]
PairVectors(i) == [k \in 1..4 |-> Call("A", Codes(FnOf(i, k)) \o ListText(Items(X(i), Y(i), (i \div 11 + k + i) % 7)), << >>, Data(X(i), Y(i)))]

M0 == [td |-> 0]
Fn(g, vs) == CallFn(g, vs, M0)
TwoNumbers(x, y) == IsNumber(TypeOf(x)) /\ IsNumber(TypeOf(y)) /\ Usable(x) /\ Usable(y)
PairBroken(i) ==
  LET x == X(i) y == Y(i) vs == << x, y >> IN
  (IF ~Usable(x) \/ ~Usable(y) \/ Fn("LEN", vs) = Ok(VInt(NumOf(2))) THEN {} ELSE {"LEN of two arguments is 2"})
  \cup (IF ~Fn("INT", vs).ok /\ ~Fn("DAYS_ELAPSED", vs).ok THEN {} ELSE {"INT and DAYS_ELAPSED take one argument"})
  \cup (IF \A g \in {"MIN", "MAX", "AVG", "MEAN", "MEDIAN"} : Fn(g, vs).ok = TwoNumbers(x, y) THEN {} ELSE {"two numbers have an aggregate, anything else has none"})
  \cup (IF TwoNumbers(x, y) => LET c == CompareOp("<=", x, y).v IN DCmp(DecOf(Fn("MIN", vs).v), DecOf(IF c THEN x ELSE y)) = 0 THEN {} ELSE {"MIN is the smaller one by the comparison operators"})
  \cup (IF TwoNumbers(x, y) /\ Fn("SUM", vs).ok => Arith("+", x, y).ok /\ DCmp(DecOf(Fn("SUM", vs).v), DecOf(Arith("+", x, y).v)) = 0 THEN {} ELSE {"SUM of two is their +"})

INSTANCE Grid WITH Count <- PairCount, Vectors <- PairVectors, Broken <- PairBroken
=============================================================================
