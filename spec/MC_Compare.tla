----------------------------- MODULE MC_Compare -----------------------------
(***************************************************************************)
(* Every ordered pair of the catalogue under the six comparators: the laws *)
(* of an order, and the comparison of fields and literals for replay.      *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

NV == Len(Values)
X(i) == Values[1 + i \div NV]
Y(i) == Values[1 + (i % NV)]
Cmps == << "=", "!=", ">", ">=", "<", "<=" >>

\* the operands as fields or literals: the four forms take turns, and all show up for every value
PairCount == NV * NV
Form(i, k) == (i \div NV + i + k) % 4
PairVectors(i) ==
  [k \in 1..6 |->
    LET f == Form(i, k) IN
    Call("B", Words(<< Operand(Codes("x"), X(i), f % 2 = 1), Codes(Cmps[k]), Operand(Codes("y"), Y(i), f \div 2 = 1) >>), << >>,
         << Entry(Codes("x"), X(i)), Entry(Codes("y"), Y(i)) >>)]

SameFamily(x, y) == Usable(x) /\ Usable(y) /\ (TypeOf(x) = TypeOf(y) \/ (IsNumber(TypeOf(x)) /\ IsNumber(TypeOf(y)))) /\ HasText(x) /\ HasText(y)
Orderable(x, y) == SameFamily(x, y) /\ TypeOf(x) # "BOOLEAN"
Holds(op, x, y) == LET c == CompareOp(op, x, y) IN c.ok /\ c.v
PairBroken(i) ==
  LET x == X(i) y == Y(i)
      eq == CompareOp("=", x, y) ne == CompareOp("!=", x, y)
      gt == CompareOp(">", x, y) ge == CompareOp(">=", x, y) lt == CompareOp("<", x, y) le == CompareOp("<=", x, y)
  IN (IF SameFamily(x, y) => eq.ok THEN {} ELSE {"values of one family can be compared"})
     \cup (IF eq.ok = ne.ok /\ (eq.ok => eq.v # ne.v) THEN {} ELSE {"!= is the complement of ="})
     \cup (IF Usable(x) /\ Usable(y) => eq = Equal(y, x) THEN {} ELSE {"= is symmetric"})
     \cup (IF gt.ok = lt.ok /\ ge.ok = le.ok /\ gt.ok = ge.ok THEN {} ELSE {"the four orders fail together"})
     \cup (IF gt.ok => (ge.v # lt.v /\ le.v # gt.v /\ ~(gt.v /\ lt.v)) THEN {} ELSE {"orders are complements"})
     \cup (IF Usable(x) /\ Usable(y) => (gt = CompareOp("<", y, x) /\ ge = CompareOp("<=", y, x)) THEN {} ELSE {"orders mirror"})
     \cup (IF Orderable(x, y) => gt.ok /\ Cardinality({op \in {"=", ">", "<"} : Holds(op, x, y)}) = 1 THEN {} ELSE {"trichotomy"})
     \cup (IF x = y /\ Usable(x) /\ HasText(x) => Holds("=", x, y) THEN {} ELSE {"= is reflexive"})
     \cup (IF IsNumber(TypeOf(x)) /\ IsNumber(TypeOf(y)) /\ Usable(x) /\ Usable(y)
           => LET d == DSub(DecOf(x), DecOf(y)).u.s IN Holds("=", x, y) = (d = 0) /\ Holds(">", x, y) = (d > 0) THEN {} ELSE {"numbers compare by value"})
     \cup (IF Orderable(x, y) /\ Holds("<=", x, y)
           => \A j \in 1..NV : Orderable(y, Values[j]) /\ Orderable(x, Values[j]) /\ Holds("<=", y, Values[j]) => Holds("<=", x, Values[j]) THEN {} ELSE {"<= is transitive"})
     \cup (IF ~(TypeOf(x) = "BOOLEAN" \/ TypeOf(y) = "BOOLEAN") \/ ~gt.ok THEN {} ELSE {"booleans have no order"})

INSTANCE Grid WITH Count <- PairCount, Vectors <- PairVectors, Broken <- PairBroken
=============================================================================
