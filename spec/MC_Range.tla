------------------------------ MODULE MC_Range ------------------------------
(***************************************************************************)
(* Every value of the catalogue against ranges with bounds in any order:   *)
(* a range is the conjunction of its two comparisons, bounds included.     *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Bounds == << I("0"), I("1"), I("2"), I("5"), I("9"), I("10"), I("2147483647"), L("2147483648"), L("9007199254740992"), L("9223372036854775807"), D("0.1"), D("1.5"), D("1.50"), D("5.0"),
             D("9.99"), D("9007199254740992.5"), D("0.0"), D("9223372036854775807.1") >>
NB == Len(Bounds)
NV == Len(Values)
RangeCount == NV * NB * NB
Lo(i) == Bounds[1 + Digit(i, NV, NB)]
Hi(i) == Bounds[1 + Digit(i, NV * NB, NB)]
X(i) == Values[1 + (i % NV)]
F0 == Codes("x")
Data(i) == << Entry(F0, X(i)) >>
RangeText(i) == Words(<< F0, LitText(Lo(i)), IF i % 3 = 0 THEN Codes("TO") ELSE Codes("to"), LitText(Hi(i)) >>)
RangeVectors(i) == << Call("B", RangeText(i), << >>, Data(i)) >>
MapAt(i) == [k |-> "map", e |-> Data(i), t |-> << >>, td |-> 0]
RangeBroken(i) ==
  LET n == Parse(RangeText(i), << >>)
      c == Parse(Words(<< F0, Codes(">="), LitText(Lo(i)), Codes("and"), F0, Codes("<="), LitText(Hi(i)) >>), << >>)
      r == EvalB(n.v, MapAt(i))
      a == EvalB(c.v, MapAt(i))
  IN (IF n.ok /\ n.v = [t |-> "range", f |-> F0, lo |-> Lo(i), hi |-> Hi(i)] THEN {} ELSE {"a range is parsed"})
     \cup (IF r.ok => a = r THEN {} ELSE {"a range is the conjunction of its comparisons"})
     \cup (IF r.ok /\ r.v => DCmp(DecOf(Lo(i)), DecOf(Hi(i))) <= 0 THEN {} ELSE {"a range with its bounds exchanged is empty"})

INSTANCE Grid WITH Count <- RangeCount, Vectors <- RangeVectors, Broken <- RangeBroken
=============================================================================
