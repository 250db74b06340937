------------------------------ MODULE MC_Arith ------------------------------
(***************************************************************************)
(* Every ordered pair of the catalogue under the six arithmetic operators  *)
(* and negation: the laws of exact arithmetic, the kind of the result, and *)
(* what is no arithmetic at all.                                           *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

\* VP_PICK: the numbers with each other, or every two values
Operands == IF IOEnv.VP_PICK = "numbers" THEN Numbers ELSE Values
NV == Len(Operands)
X(i) == Operands[1 + i \div NV]
Y(i) == Operands[1 + (i % NV)]
Ops == << "+", "-", "*", "/", "%", "^" >>

IsNum(v) == Usable(v) /\ IsNumber(TypeOf(v))
BothNum(i) == IsNum(X(i)) /\ IsNum(Y(i))
\* one exponentiation may give numbers of any length: only small exponents are tried
Tried(i, op) == op # "^" \/ ~BothNum(i) \/ (LET e == DecOf(Y(i)) IN DCmp(e, DecOfNum(NumOf(2000))) <= 0 /\ DCmp(e, DecOfNum(NumOf(-2000))) >= 0)

Form(i, k) == (i \div NV + i + k) % 4
OpCall(i, k) ==
  LET f == Form(i, k) IN
  Call("A", Words(<< Operand(Codes("x"), X(i), f % 2 = 1), Codes(Ops[k]), Operand(Codes("y"), Y(i), f \div 2 = 1) >>), << >>,
       << Entry(Codes("x"), X(i)), Entry(Codes("y"), Y(i)) >>)
\* pairs of numbers under all operators, other pairs under + and one more
Chosen(i) == IF BothNum(i) THEN << 1, 2, 3, 4, 5, 6 >> ELSE << 1, 2 + (i % 5) >>
PairVectors(i) ==
  LET ks == SelectSeq(Chosen(i), LAMBDA k : Tried(i, Ops[k])) IN
  [j \in 1..Len(ks) |-> OpCall(i, ks[j])]
  \o (IF i % NV = 0 THEN << Call("A", << 45, 120 >>, << >>, << Entry(Codes("x"), X(i)) >>), Call("A", Codes("-(x + 0)"), << >>, << Entry(Codes("x"), X(i)) >>) >> ELSE << >>)

\* laws of numbers; exact values of results
Val(a) == DecOf(a.v)
SameVal(a, b) == ~a.ok \/ ~b.ok \/ DCmp(Val(a), Val(b)) = 0
Thousandth == MkDec(NumOf(1), 3)
DAbs(d) == MkDec([s |-> IF d.u.s = 0 THEN 0 ELSE 1, m |-> d.u.m], d.sc)
KindRight(a) == ~a.ok \/ ((a.v.k = "int" => FitsInt(a.v.n)) /\ (a.v.k = "long" => FitsLong(a.v.n)))
Whole2(x, y) == IsWhole(TypeOf(x)) /\ IsWhole(TypeOf(y))
\* powers of whole numbers: by repeated multiplication, and inverse to each other
PowBroken(x, y) ==
  LET p == Arith("^", x, y) IN
  IF ~p.ok THEN {}
  ELSE (IF KindRight(p) THEN {} ELSE {"results fit their kind"})
       \cup (LET q == Arith("^", x, Arith("+", y, I("1")).v) IN
             IF q.ok => DCmp(DMul(Val(p), DecOf(x)), Val(q)) = 0 THEN {} ELSE {"one more factor for one more in the exponent"})
       \cup (LET q == Arith("^", x, Negate(y).v) IN
             IF q.ok => DCmp(DMul(Val(p), Val(q)), DecOfNum(NumOf(1))) = 0 THEN {} ELSE {"a negative exponent gives the inverse"})
PairBroken(i) ==
  LET x == X(i) y == Y(i) IN
  IF ~BothNum(i)
  THEN (IF \A k \in {2, 3, 4, 5, 6} : LET a == Arith(Ops[k], x, y) IN ~a.ok THEN {} ELSE {"only numbers are subtracted, multiplied and divided"})
       \cup (IF LET a == Arith("+", x, y) IN a.ok => a.v.k = "str" THEN {} ELSE {"anything else is joined as text"})
  ELSE LET add == Arith("+", x, y) sub == Arith("-", x, y) mul == Arith("*", x, y) div == Arith("/", x, y) rem == Arith("%", x, y) IN
       (IF add.ok = Arith("+", y, x).ok /\ SameVal(add, Arith("+", y, x)) THEN {} ELSE {"+ commutes"})
       \cup (IF mul.ok = Arith("*", y, x).ok /\ SameVal(mul, Arith("*", y, x)) THEN {} ELSE {"* commutes"})
       \cup (IF sub.ok => SameVal(Arith("+", sub.v, y), Ok(x)) THEN {} ELSE {"- undoes +"})
       \cup (IF sub.ok /\ Negate(y).ok => SameVal(sub, Arith("+", x, Negate(y).v)) THEN {} ELSE {"- adds the negative"})
       \cup (IF ~Whole2(x, y) \/ (\A a \in {add, sub, mul} : a.ok => a.v.k \in {"int", "long"}) THEN {} ELSE {"whole numbers stay whole"})
       \cup (IF \A a \in {add, sub, mul, div, rem} : KindRight(a) THEN {} ELSE {"results fit their kind"})
       \cup (IF ~Whole2(x, y) /\ ~(add.ok /\ sub.ok /\ mul.ok) THEN {"decimals never overflow"} ELSE {})
       \cup (IF div.ok = (DecOf(y).u.s # 0) THEN {} ELSE {"division fails for zero only"})
       \cup (IF ~div.ok THEN {}
             ELSE LET q == Val(div) r == DSub(DecOf(x), DMul(q, DecOf(y))) IN
                  IF DStrip(q).sc <= 3 /\ DCmp(DAbs(r), DMul(DAbs(DecOf(y)), Thousandth)) < 0 /\ (r.u.s = 0 \/ r.u.s = DecOf(x).u.s) THEN {} ELSE {"division truncates at three digits"})
       \cup (IF ~Tried(i, "^") THEN {} ELSE PowBroken(x, y))
       \cup (IF rem.ok = (Whole2(x, y) /\ y.n.s # 0) THEN {} ELSE {"% is for whole numbers"})
       \cup (IF ~rem.ok THEN {}
             ELSE IF /\ NCmp(rem.v.n.m, y.n.m) < 0 /\ rem.v.n.s \in {0, x.n.s}
                     /\ ICmp(IAdd(IMul(IDiv(x.n, y.n), y.n), rem.v.n), x.n) = 0 THEN {} ELSE {"% is the remainder"})

INSTANCE Grid WITH Count <- NV * NV, Vectors <- PairVectors, Broken <- PairBroken
=============================================================================
