------------------------------ MODULE MC_Embed ------------------------------
(***************************************************************************)
(* An arithmetic expression as an operand of a comparison or an item of a  *)
(* list stands for its exact value.                                        *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Nums == << I("1"), I("3"), I("-7"), L("2147483648"), D("0.1"), D("2.50"), D("9007199254740993.5"), D("0.12345678901234567890123"), F("0.5"), L("9007199254740993") >>
NN == Len(Nums)
Ops == << "+", "-", "*", "/" >>
Fns == << "min", "max", "sum" >>
FnNames == << "MIN", "MAX", "SUM" >>
Cmps == << "=", "!=", ">", ">=", "<", "<=" >>
Shifts == << D("0.0"), D("1.0"), D("-0.001"), D("0.0000000000000000000000001") >>
NKinds == Len(Ops) + Len(Fns)
EmbedCount == NN * NN * NKinds * Len(Shifts)
X(i) == Nums[1 + Digit(i, 1, NN)]
Y(i) == Nums[1 + Digit(i, NN, NN)]
Kind(i) == 1 + Digit(i, NN * NN, NKinds)
Shift(i) == Shifts[1 + Digit(i, NN * NN * NKinds, Len(Shifts))]
Exact(i) == IF Kind(i) <= Len(Ops) THEN Arith(Ops[Kind(i)], X(i), Y(i)) ELSE CallFn(FnNames[Kind(i) - Len(Ops)], << X(i), Y(i) >>, [td |-> 0])
Expr(i) == LET x == Operand(Codes("x"), X(i), i % 2 = 0) y == Operand(Codes("y"), Y(i), i % 3 = 0) IN
           IF Kind(i) <= Len(Ops) THEN Paren(Words(<< x, Codes(Ops[Kind(i)]), y >>)) ELSE Codes(Fns[Kind(i) - Len(Ops)]) \o ListText(<< x, y >>)
\* the value compared with: the exact result, or something next to it
Z(i) == LET e == Exact(i) IN IF ~e.ok THEN I("1") ELSE IF Shift(i).d.u.s = 0 THEN e.v ELSE VDec(DAdd(DecOf(e.v), Shift(i).d))
\* the exact value in other forms: with a zero more, or as an integer where it is one
Longer(v) == IF v.k = "dec" THEN VDec([u |-> [v.d.u EXCEPT !.m = NMulPow10(@, 1)], sc |-> v.d.sc + 1]) ELSE v
Data(i) == << Entry(Codes("x"), X(i)), Entry(Codes("y"), Y(i)), Entry(Codes("z"), Z(i)), Entry(Codes("zs"), ListV(<< I("77"), Z(i) >>)), Entry(Codes("ls"), ListV(<< Longer(Z(i)), S("a") >>)) >>
EmbedTexts(i) ==
  [k \in 1..6 |-> IF (i + k) % 2 = 0 THEN Words(<< Expr(i), Codes(Cmps[k]), Codes("z") >>) ELSE Words(<< Codes("z"), Codes(Cmps[k]), Expr(i) >>)]
  \o << Words(<< Codes("z in"), ListText(<< Expr(i), Codes("1") >>) >>), Words(<< Codes("z not in"), ListText(<< Codes("'a'"), Expr(i) >>) >>),
        Words(<< Codes("zs contains_any"), ListText(<< Expr(i) >>) >>), Words(<< Codes("zs contains_all"), ListText(<< Codes("77"), Expr(i) >>) >>),
        Words(<< Codes("ls contains_any"), ListText(<< Expr(i), Codes("'b'") >>) >>) >>
EmbedVectors(i) == LET ts == EmbedTexts(i) IN [k \in 1..Len(ts) |-> Call("B", ts[k], << >>, Data(i))]
MapAt(i) == [k |-> "map", e |-> Data(i), t |-> << >>, td |-> 0]
EmbedBroken(i) ==
  LET e == Exact(i) IN
  UNION {LET o == EvalB(Parse(EmbedTexts(i)[k], << >>).v, MapAt(i))
             s == IF (i + k) % 2 = 0 THEN CompareOp(Cmps[k], e.v, Z(i)) ELSE CompareOp(Cmps[k], Z(i), e.v)
         IN IF (e.ok /\ o = s) \/ (~e.ok /\ o = e) THEN {} ELSE {"an expression stands for its value"} : k \in 1..6}
  \cup (IF ~e.ok THEN {} ELSE
        LET m == MapAt(i) w == [m EXCEPT !.e = Append(@, Entry(Codes("w"), e.v))]
            \* the same text with a field that holds the value in the place of the expression
            As(k) == EvalB(Parse(EmbedTexts(i)[k], << >>).v, m)
            Field == << Codes("zs contains_any (w)"), Codes("zs contains_all (77, w)"), Codes("ls contains_any (w, 'b')") >>
        IN UNION {IF As(8 + k) = EvalB(Parse(Field[k], << >>).v, w) THEN {} ELSE {"an item stands for its value"} : k \in 1..3})

INSTANCE Grid WITH Count <- EmbedCount, Vectors <- EmbedVectors, Broken <- EmbedBroken
=============================================================================
