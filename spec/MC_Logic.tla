------------------------------ MODULE MC_Logic ------------------------------
(***************************************************************************)
(* Every combination by AND, OR and NOT of two levels over leaves that are *)
(* true, false, no boolean, missing, or a comparison: the truth tables     *)
(* with failures, De Morgan, and agreement of the machine with Eval.       *)
(***************************************************************************)
EXTENDS Forms, Machine
VARIABLES chunk, bad

Five == MkLit(VInt(NumOf(5)))
FieldN(s) == NField(Codes(s))
Leaves == << FieldN("t"), FieldN("f"), FieldN("n"), FieldN("u"), MkCmp("=", FieldN("n"), Five), MkCmp("<", FieldN("n"), Five), MkLit(VBool(TRUE)), MkLit(VBool(FALSE)),
             MkCmp("=", FieldN("u"), FieldN("null")), MkCmp(">", FieldN("t"), Five), MkCmp("=", FieldN("v"), MkLit(VStr(Codes("it")))),
             [t |-> "in", f |-> Codes("n"), args |-> << Five, FieldN("u") >>], [t |-> "range", f |-> Codes("n"), lo |-> VInt(NumOf(1)), hi |-> VInt(NumOf(9))] >>
NL == Len(Leaves)
\* one level: leaves, their negations and their pairs
LevelOne == 2 * NL + 2 * NL * NL
Join2(k, x, y) == MkBin(IF k = 0 THEN "AND" ELSE "OR", x, y)
One(i) ==
  IF i < NL THEN Leaves[1 + i]
  ELSE IF i < 2 * NL THEN MkNot(Leaves[1 + (i - NL)])
  ELSE LET j == i - 2 * NL IN Join2(j % 2, Leaves[1 + Digit(j, 2, NL)], Leaves[1 + Digit(j, 2 * NL, NL)])
FormulaCount == LevelOne + 4 * LevelOne * LevelOne
Formula(i) ==
  IF i < LevelOne THEN MkNot(One(i))
  ELSE LET j == i - LevelOne
           n == Join2(Digit(j, 1, 2), One(Digit(j, 4, LevelOne)), One(Digit(j, 4 * LevelOne, LevelOne)))
       IN IF Digit(j, 2, 2) = 1 THEN MkNot(n) ELSE n

Data == << Entry(Codes("t"), VBool(TRUE)), Entry(Codes("f"), VBool(FALSE)), Entry(Codes("n"), VInt(NumOf(5))), Entry(Codes("v"), VStr(Codes("it"))) >>
TheMap == [k |-> "map", e |-> Data, t |-> << >>, td |-> 0]
FormulaVectors(i) == << Call("B", Show(Formula(i), 0), << >>, Data) >>

\* the truth tables, with E for a failure
Out(n) == LET a == EvalB(n, TheMap) IN IF ~a.ok THEN "E" ELSE IF a.v THEN "T" ELSE "F"
NotT(a) == CASE a = "T" -> "F" [] a = "F" -> "T" [] a = "E" -> "E"
AndT(a, b) == IF a = "T" THEN b ELSE a
OrT(a, b) == IF a = "F" THEN b ELSE a
RECURSIVE Table(_)
Table(n) == CASE n.t = "not" -> NotT(IF n.l.t = "lit" /\ n.l.v.k = "str" THEN Out(NField(n.l.v.t)) ELSE Table(n.l))
              [] n.t = "logic" -> (IF n.op = "AND" THEN AndT(Table(n.l), Table(n.r)) ELSE OrT(Table(n.l), Table(n.r)))
              [] OTHER -> Out(n)
RECURSIVE Dual(_)
\* the negation, pushed down to the leaves
Dual(n) == CASE n.t = "logic" -> MkBin(IF n.op = "AND" THEN "OR" ELSE "AND", Dual(n.l), Dual(n.r))
             [] n.t = "not" -> MkNot(MkNot(n.l))
             [] OTHER -> MkNot(n)

FormulaBroken(i) ==
  LET n == Formula(i) run == Run(n, "B", TheMap) IN
  (IF Out(n) = Table(n) THEN {} ELSE {"truth tables"})
  \cup (IF Out(MkNot(n)) = Out(Dual(n)) THEN {} ELSE {"De Morgan"})
  \cup (IF Out(MkNot(MkNot(n))) = Out(n) THEN {} ELSE {"double negation"})
  \cup (IF OutcomeReads(n, TheMap).o = EvalB(n, TheMap) THEN {} ELSE {"reads follow the evaluation"})
  \cup (IF run.r = EvalB(n, TheMap) THEN {} ELSE {"the machine and Eval agree"})
  \cup (IF {run.reads[k] : k \in 1..Len(run.reads)} \subseteq MayRead(n, TheMap) THEN {} ELSE {"the machine reads no more than it may"})
  \cup (IF Parse(Show(n, 0), << >>) = Ok(n) THEN {} ELSE {"parsing inverts writing"})

INSTANCE Grid WITH Count <- FormulaCount, Vectors <- FormulaVectors, Broken <- FormulaBroken
=============================================================================
