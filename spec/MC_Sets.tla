------------------------------- MODULE MC_Sets -------------------------------
(***************************************************************************)
(* IN, NOT IN, CONTAINS_ANY and CONTAINS_ALL over every collection and list*)
(* of up to three elements of a small domain with look-alikes.             *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Els == << I("1"), I("2"), S("1"), D("1.0"), D("2.5"), S("a"), VBool(TRUE), L("2"), VDate(2024, 1, 1), S("2024-01-01") >>
NE == Len(Els)
LenCount(n) == CASE n = 0 -> 1 [] n = 1 -> NE [] n = 2 -> NE * NE [] OTHER -> NE * NE * NE
ItemsCount == NE + NE * NE                   \* lists of one or two items
NC == NE + 1
CollCount == 1 + NC + NC * NC                \* collections of up to two elements, null among them
\* sequence number i of the sequences of up to three elements, the shorter ones first
RECURSIVE SeqFrom(_, _)
SeqFrom(i, n) == IF i < LenCount(n) THEN [k \in 1..n |-> Els[1 + Digit(i, LenCount(k - 1), NE)]] ELSE SeqFrom(i - LenCount(n), n + 1)
Elements == Append(Els, VNull)
CollFrom(i) == IF i = 0 THEN << >> ELSE IF i <= NC THEN << Elements[i] >> ELSE << Elements[1 + ((i - 1 - NC) % NC)], Elements[1 + ((i - 1 - NC) \div NC)] >>
ContainsCount == CollCount * ItemsCount
InCount == NE * (ItemsCount + NE * NE * NE)
\* collections in IN are compared by their text
Wholes == << ListV(<< S("a") >>), ListV(<< I("1") >>), ListV(<< I("2") >>), ListV(<< >>), ListV(<< S("a"), I("1") >>), ListV(<< VBool(TRUE) >>), MapV(<< Entry(Codes("a"), I("1")) >>), MapV(<< >>) >>
WholeItems == << S("[a]"), S("a"), I("1"), S("[1]"), S("[]"), S("[a, 1]"), S("{a=1}"), VBool(TRUE), S("") >>
NWI == Len(WholeItems)
WholeCount == Len(Wholes) * (NWI + NWI * NWI)
WholeX(j) == Wholes[1 + (j % Len(Wholes))]
WholeVs(j) == LET k == j \div Len(Wholes) IN IF k < NWI THEN << WholeItems[1 + k] >> ELSE << WholeItems[1 + ((k - NWI) % NWI)], WholeItems[1 + ((k - NWI) \div NWI)] >>
SetCount == ContainsCount + InCount + WholeCount

Names == << Codes("p"), Codes("q"), Codes("r") >>
ItemTexts2(vs, w) == [k \in 1..Len(vs) |-> Operand(Names[k], vs[k], (w + k) % 2 = 0)]
ItemData(vs) == [k \in 1..Len(vs) |-> Entry(Names[k], vs[k])]
Coll(i) == CollFrom(i \div ItemsCount)
Items(i) == SeqFrom(i % ItemsCount, 1)
InX(j) == IF j >= InCount THEN WholeX(j - InCount) ELSE Els[1 + (j % NE)]
InItems(j) == IF j >= InCount THEN WholeVs(j - InCount) ELSE SeqFrom(j \div NE, 1)
CF == Codes("c")
SetVectors(i) ==
  IF i < ContainsCount
  THEN LET vs == Items(i) es == Coll(i) c == IF i % 5 = 0 THEN ArrV(es) ELSE ListV(es) IN
       << Call("B", Words(<< CF, Codes("contains_any"), ListText(ItemTexts2(vs, i)) >>), << >>, Append(ItemData(vs), Entry(CF, c))),
          Call("B", Words(<< CF, Codes("CONTAINS_ALL"), ListText(ItemTexts2(vs, i + 1)) >>), << >>, Append(ItemData(vs), Entry(CF, c))) >>
  ELSE LET j == i - ContainsCount vs == InItems(j) IN
       << Call("B", Words(<< CF, Codes("in"), ListText(ItemTexts2(vs, j)) >>), << >>, Append(ItemData(vs), Entry(CF, InX(j)))),
          Call("B", Words(<< CF, Codes("NOT IN"), ListText(ItemTexts2(vs, j + 1)) >>), << >>, Append(ItemData(vs), Entry(CF, InX(j)))) >>

MapOf2(e) == [k |-> "map", e |-> e, t |-> << >>, td |-> 0]
Ask(s, vs, x) ==
  EvalB(Parse(CF \o << 32 >> \o Codes(s) \o << 32 >> \o ListText([k \in 1..Len(vs) |-> Names[k]]), << >>).v, MapOf2(Append(ItemData(vs), Entry(CF, x))))
Swap(vs) == [k \in 1..Len(vs) |-> vs[Len(vs) + 1 - k]]
RECURSIVE OrChain(_, _, _)
OrChain(x, vs, i) == IF i > Len(vs) THEN Ok(FALSE) ELSE LET e == CompareOp("=", x, vs[i]) IN IF ~e.ok \/ e.v THEN e ELSE OrChain(x, vs, i + 1)
SetBroken(i) ==
  IF i < ContainsCount
  THEN LET vs == Items(i) c == ListV(Coll(i)) any == Ask("contains_any", vs, c) all == Ask("contains_all", vs, c)
           one(k) == Ask("contains_any", << vs[k] >>, c)
           twice == Ask("contains_any", vs \o SubSeq(vs, 1, 1), c)
       IN (IF any.ok = all.ok THEN {} ELSE {"ANY and ALL fail together"})
          \cup (IF any.ok => (any.v = \E k \in 1..Len(vs) : one(k).v) THEN {} ELSE {"ANY is the disjunction of its items"})
          \cup (IF all.ok => (all.v = \A k \in 1..Len(vs) : one(k).v) THEN {} ELSE {"ALL is the conjunction of its items"})
          \cup (IF any = Ask("contains_any", Swap(vs), c) /\ any = Ask("contains_any", vs, ListV(Swap(Coll(i)))) /\ twice = any THEN {} ELSE {"order and repetition"})
          \cup (IF any = Ask("contains_any", vs, ListV(Append(Coll(i), VNull))) /\ all = Ask("contains_all", vs, ListV(<< VNull >> \o Coll(i))) THEN {} ELSE {"null matches nothing"})
          \cup (IF any.ok => any = Ask("contains_any", vs, ArrV(Coll(i))) THEN {} ELSE {"arrays are collections"})
  ELSE LET j == i - ContainsCount vs == InItems(j) in == Ask("in", vs, InX(j)) out == Ask("not in", vs, InX(j)) IN
       (IF in = OrChain(InX(j), vs, 1) THEN {} ELSE {"IN is a chain of ="})
       \cup (IF in.ok = out.ok /\ (in.ok => in.v # out.v) THEN {} ELSE {"NOT IN is the complement"})

INSTANCE Grid WITH Count <- SetCount, Vectors <- SetVectors, Broken <- SetBroken
=============================================================================
