------------------------------ MODULE MC_Shapes ------------------------------
(***************************************************************************)
(* Words put together from digits, letters, dots, dashes and colons, up to *)
(* six pieces long, in the places of a field, an operand, a bound and an   *)
(* item: whole numbers, decimals, versions, dates, names, keywords, and    *)
(* what is a little longer than any of them.                               *)
(***************************************************************************)
EXTENDS Forms
VARIABLES chunk, bad

Pieces == << "12", "3", ".", "a", "_", "2024", "-", "05", "in", " 10:20:30", "true", "0" >>
NP == Len(Pieces)
RECURSIVE PowP(_), TotalP(_), OfPieces(_, _), SizedP(_, _)
PowP(n) == IF n = 0 THEN 1 ELSE NP * PowP(n - 1)
TotalP(n) == IF n = 0 THEN 0 ELSE PowP(n) + TotalP(n - 1)
OfPieces(j, n) == IF n = 0 THEN << >> ELSE Codes(Pieces[1 + (j % NP)]) \o OfPieces(j \div NP, n - 1)
SizedP(j, n) == IF j < PowP(n) THEN OfPieces(j, n) ELSE SizedP(j - PowP(n), n + 1)
ShapesCount == TotalP(5)
W(i) == SizedP(i, 1)
Places == << << "P", "x = $" >>, << "P", "$ = 1" >>, << "P", "x in (1, $)" >>, << "P", "x $ to 99" >>, << "P", "x 0 to $" >>, << "P", "min($, 1)" >>, << "P", "$ + 1" >>, << "P", "not $" >>, << "P", "$" >>, << "P", "x contains_any ($)" >>, << "P", "$ in (1)" >>,
             << "B", "x = $" >>, << "B", "x >= $" >>, << "A", "$ + 1" >>, << "A", "len($)" >>, << "A", "$" >>, << "B", "x in ('a', $)" >>, << "B", "$ != x" >> >>
RECURSIVE Fill(_, _, _)
Fill(t, p, k) == IF k > Len(t) THEN << >> ELSE (IF t[k] = 36 THEN p ELSE << t[k] >>) \o Fill(t, p, k + 1)
\* data under the word as a name, too
Data(w) == << Entry(Codes("x"), VStr(w)), Entry(w, VInt(NumOf(7))), Entry(Codes("a"), VInt(NumOf(12))) >>
DataOf(w) == IF w \in {Codes("x"), Codes("a")} THEN << Entry(Codes("x"), VStr(w)), Entry(Codes("a"), VInt(NumOf(12))) >> ELSE Data(w)
ShapesVectors(i) ==
  LET w == W(i) IN
  << Call("P", Codes("x = ") \o w, << >>, << >>) >>
  \o [k \in 1..2 |-> LET p == Places[1 + ((7 * i + 5 * k + i \div NP) % Len(Places))] IN Call(p[1], Fill(Codes(p[2]), w, 1), << >>, IF p[1] = "P" THEN << >> ELSE DataOf(w))]

\* the kind of a word, told from its pieces
Runs(w) == SplitAll(w, 46)
AllRunsDigits(w) == \A k \in 1..Len(Runs(w)) : Runs(w)[k] # << >> /\ AllDigits(Runs(w)[k])
KindOf(w) ==
  IF w \in {TrueText, FalseText} THEN "BOOLEAN"
  ELSE IF \A k \in 1..Len(w) : IsFieldC(w[k]) THEN
    (IF ~AllRunsDigits(w) THEN "name" ELSE IF Len(Runs(w)) = 1 THEN "whole" ELSE IF Len(Runs(w)) = 2 THEN "DECIMAL" ELSE "VERSION")
  ELSE "other"
ShapesBroken(i) ==
  LET w == W(i) p == Parse(Codes("x = ") \o w, << >>) k == KindOf(w) IN
  IF k = "other" \/ w = Codes("in") THEN {}
  ELSE IF ~p.ok THEN (IF k = "whole" /\ Len(w) > 18 THEN {} ELSE {"a word is an operand"})
  ELSE LET r == p.v.r IN
       IF p.v.t # "cmp" THEN {"a comparison with the word"}
       ELSE IF k = "name" THEN (IF r.t = "field" /\ r.f = w THEN {} ELSE {"a name is itself"})
       ELSE IF r.t # "lit" THEN {"a literal"}
       ELSE (IF r.ty = (IF k = "whole" THEN (IF FitsInt(MkNum(1, NOfDigits(w))) THEN "INTEGER" ELSE "LONG") ELSE k) THEN {} ELSE {"the kind of the literal"})
            \cup (IF k = "DECIMAL" => DCmp(r.v.d, MkDec(MkNum(1, NOfDigits(SelectSeq(w, LAMBDA c : c # 46))), Len(Runs(w)[2]))) = 0 THEN {} ELSE {"the value of a decimal"})

INSTANCE Grid WITH Count <- ShapesCount, Vectors <- ShapesVectors, Broken <- ShapesBroken
=============================================================================
