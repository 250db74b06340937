------------------------------ MODULE MC_Bounds ------------------------------
(***************************************************************************)
(* Arithmetic whose exact result is a bound of a machine number, or next   *)
(* to one: the first operand runs through all sizes, the second one is     *)
(* what is missing.                                                        *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

RECURSIVE TwoTo(_)
TwoTo(j) == IF j = 0 THEN NumOf(1) ELSE IMul(NumOf(2), TwoTo(j - 1))
Powers2 == [j \in 1..64 |-> TwoTo(j)]
Plus(a, n) == IAdd(a, NumOf(n))
\* numbers with j + 1 binary digits
Sized(j) ==
  LET t == Powers2[j] q == IF j > 3 THEN Powers2[j - 3] ELSE NumOf(1) IN
  << Plus(t, -1), t, Plus(t, 1), IAdd(t, q), Plus(IAdd(t, IMul(q, NumOf(3))), 5), Plus(IAdd(t, IMul(q, NumOf(5))), -3), Plus(IAdd(t, IMul(q, NumOf(7))), 2) >>
Sizes == 7
Bounds == << Powers2[31], Powers2[63], Powers2[32], Powers2[64], Powers2[53], N(Codes("1000000000000000000")), N(Codes("32768")) >>
NB == Len(Bounds)
Kinds == << "+", "-", "*", "/", "%", "sum", "neg", "far" >>
NKind == Len(Kinds)
BoundsCount == NB * 3 * 63 * Sizes * NKind
T(i) == Plus(Bounds[1 + Digit(i, 1, NB)], Digit(i, NB, 3) - 1)
A(i) == Sized(1 + Digit(i, NB * 3, 63))[1 + Digit(i, NB * 3 * 63, Sizes)]
Kind(i) == Kinds[1 + (i \div (NB * 3 * 63 * Sizes))]
\* the two operands, without their signs
Ops2(i) ==
  LET t == T(i) a == A(i) IN
  CASE Kind(i) \in {"+", "sum", "neg"} -> << a, ISub(t, a) >>
    [] Kind(i) = "-" -> << a, ISub(a, t) >>
    [] Kind(i) = "*" -> << a, Plus(IDiv(Bounds[1 + Digit(i, 1, NB)], a), Digit(i, NB, 3) - 1) >>
    [] Kind(i) \in {"/", "%"} -> << t, a >>
    [] Kind(i) = "far" -> << a, t >>
WholeV(n) == IF FitsInt(n) THEN VInt(n) ELSE IF FitsLong(n) THEN VLong(n) ELSE VDec(DecOfNum(n))
\* a small number in the larger kind
AsLong(v) == IF v.k = "int" THEN VLong(v.n) ELSE v
Signed(n, minus) == IF minus THEN INeg(n) ELSE n
Pair(i, q) ==
  LET o == Ops2(i) h == i + i \div NB + i \div (NB * 3 * 63) IN
  [k \in 1..2 |-> LET v == WholeV(Signed(o[k], q = 1 /\ (h \div k) % 3 # 0)) IN IF q = 1 /\ (h + k) % 4 = 0 THEN AsLong(v) ELSE v]
Op(i) == IF Kind(i) \in {"sum", "neg"} THEN "+" ELSE IF Kind(i) = "far" THEN << "+", "-", "*", "/", "%" >>[1 + (i % 5)] ELSE Kind(i)
Exact(i, q) == LET p == Pair(i, q) r == Arith(Op(i), p[1], p[2]) IN IF Kind(i) = "neg" /\ r.ok THEN Negate(r.v) ELSE r
Expr(i, q) ==
  LET p == Pair(i, q) x == Operand(Codes("x"), p[1], (i + q) % 2 = 0) y == Operand(Codes("y"), p[2], (i + q) % 3 = 0) t == Words(<< x, Codes(Op(i)), y >>) IN
  CASE Kind(i) = "sum" -> Codes("sum") \o ListText(<< x, y >>) [] Kind(i) = "neg" -> << 45 >> \o Paren(t) [] OTHER -> t
Data(i, q, r) == LET p == Pair(i, q) IN << Entry(Codes("x"), p[1]), Entry(Codes("y"), p[2]) >> \o (IF r.ok THEN << Entry(Codes("z"), r.v) >> ELSE << >>)
\* with their own signs the operands give the bound, with other signs anything
BoundsVectors(i) ==
  [q \in 1..2 |-> Call("A", Expr(i, q - 1), << >>, Data(i, q - 1, Exact(i, q - 1)))]
  \o (IF (i \div 3) % 4 = 0 THEN << Call("B", Words(<< Paren(Expr(i, 0)), << 61 >>, Codes("z") >>), << >>, Data(i, 0, Exact(i, 0))) >> ELSE << >>)
InBounds(v) == (v.k = "int" => FitsInt(v.n)) /\ (v.k = "long" => FitsLong(v.n))
BoundsBroken(i) ==
  UNION {LET r == Exact(i, q) p == Pair(i, q) IN
    (IF r.ok => InBounds(r.v) THEN {} ELSE {"results fit their kind"})
    \cup (IF Kind(i) \notin {"+", "-", "*"} \/ ~(p[1].k \in {"int", "long"} /\ p[2].k \in {"int", "long"}) THEN {}
          ELSE LET n == CASE Kind(i) = "+" -> IAdd(p[1].n, p[2].n) [] Kind(i) = "-" -> ISub(p[1].n, p[2].n) [] OTHER -> IMul(p[1].n, p[2].n) IN
               IF r.ok = FitsLong(n) /\ (r.ok => ICmp(r.v.n, n) = 0) THEN {} ELSE {"exact, or no result"}) : q \in {0, 1}}
  \cup (IF Kind(i) \in {"+", "-"} /\ Exact(i, 0).ok /\ ICmp(DecOf(Exact(i, 0).v).u, T(i)) # 0 THEN {"the bound is met"} ELSE {})

INSTANCE Grid WITH Count <- BoundsCount, Vectors <- BoundsVectors, Broken <- BoundsBroken
=============================================================================
