------------------------------ MODULE MC_Words ------------------------------
(***************************************************************************)
(* Every keyword and symbol as it can be written, every near miss of it    *)
(* (one letter in the other case, one letter more or less, a dot or digit  *)
(* attached) and some ordinary names, in the places where a field, an      *)
(* operator, a function or a literal can stand.                            *)
(***************************************************************************)
EXTENDS Forms
VARIABLES chunk, bad

Other(c) == IF IsUpperC(c) THEN c + 32 ELSE IF IsLowerC(c) THEN c - 32 ELSE c
Capital(t) == [k \in 1..Len(t) |-> IF k = 1 THEN t[k] ELSE IF IsUpperC(t[k]) THEN t[k] + 32 ELSE t[k]]
NK == Len(KeywordNames)
Variants == 24
\* variant v of keyword k
Word(k, v) ==
  LET up == KeywordTable[k].up lo == KeywordTable[k].lo n == Len(up) IN
  CASE v = 0 -> up [] v = 1 -> lo [] v = 2 -> Capital(up)
    [] v \in 3..8 -> (LET q == 1 + ((v - 3) % n) IN [lo EXCEPT ![q] = Other(lo[q])])
    [] v \in 9..13 -> (LET q == 1 + ((v - 9) % n) IN [up EXCEPT ![q] = Other(up[q])])
    [] v = 14 -> lo \o << 115 >> [] v = 15 -> << 120 >> \o up [] v = 16 -> SubSeq(lo, 1, n - 1) [] v = 17 -> lo \o << 46, 97 >>
    [] v = 18 -> << 97, 46 >> \o lo [] v = 19 -> up \o << 49 >> [] v = 20 -> << 95 >> \o lo [] v = 21 -> << 49 >> \o lo [] v = 22 -> lo \o lo [] v = 23 -> up \o << 46 >>
Place(w, c) ==
  CASE c = 0 -> w
    [] c = 1 -> w \o Codes(" = 1")
    [] c = 2 -> Codes("a = ") \o w
    [] c = 3 -> Codes("a ") \o w \o Codes(" b")
    [] c = 4 -> w \o Codes(" (a, 2)")
    [] c = 5 -> Codes("a ") \o w \o Codes(" (1, 2)")
    [] c = 6 -> Codes("f 1 ") \o w \o Codes(" 5")
    [] c = 7 -> Codes("'") \o w \o Codes("' = a")
    [] c = 8 -> w \o Codes(" (x)")
    [] c = 9 -> Codes("not ") \o w
    [] c = 10 -> Codes("a not ") \o w \o Codes(" (1)")
    [] c = 11 -> Codes("(b or ") \o w \o Codes(") and a")
Places == 12
Wd(i) == Word(1 + Digit(i, 1, NK), Digit(i, NK, Variants))
Pl(i) == Digit(i, NK * Variants, Places)
Text1(i) == Place(Wd(i), Pl(i))
WordCount == NK * Variants * Places
MapData(i) == << Entry(Codes("a"), VInt(NumOf(2))), Entry(Codes("b"), VBool(FALSE)), Entry(Codes("x"), VStr(Codes("3"))), Entry(Codes("f"), VInt(NumOf(4))), Entry(Wd(i), VInt(NumOf(1))) >>
DataOf(i) == IF Wd(i) \in {Codes("a"), Codes("b"), Codes("x"), Codes("f")} THEN SubSeq(MapData(i), 1, 4) ELSE MapData(i)
WordVectors(i) == << Call("P", Text1(i), << >>, << >>), Call("B", Text1(i), << >>, DataOf(i)) >>
                  \o (IF Pl(i) \in {1, 4, 8} THEN << Call("A", Text1(i), << >>, DataOf(i)) >> ELSE << >>)
                  \o (IF i % 4 = 0 THEN << Call("B", Text1(i), Codes("b"), DataOf(i)) >> ELSE << >>)
Exact(w) == \E k \in 1..NK : w = KeywordTable[k].up \/ w = KeywordTable[k].lo
WordBroken(i) ==
  LET w == Wd(i) l == Lex(w) k == 1 + Digit(i, 1, NK) v == Digit(i, NK, Variants) IN
  (IF l.ok /\ Len(l.toks) = 2 THEN {} ELSE {"one word, one token"})
  \cup (IF v \in {0, 1} => l.toks[1].ty = KeywordNames[k] THEN {} ELSE {"keywords in upper and lower case"})
  \cup (IF ~Exact(w) => l.toks[1].ty \in {"FIELD"} THEN {} ELSE {"anything else is a name"})
  \cup (IF v = 1 => Parse(Text1(i), << >>) = Parse(Place(Word(k, 0), Pl(i)), << >>) \/ Pl(i) = 7 THEN {} ELSE {"both cases mean the same"})

INSTANCE Grid WITH Count <- WordCount, Vectors <- WordVectors, Broken <- WordBroken
=============================================================================
