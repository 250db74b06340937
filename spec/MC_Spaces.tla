------------------------------ MODULE MC_Spaces ------------------------------
(***************************************************************************)
(* Expressions with every kind of white space, none, or something that is  *)
(* no white space in one or two of the gaps between tokens, at the start   *)
(* and at the end: white space never matters except where it keeps two     *)
(* words apart, and what is no white space is an error.                    *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Bases == << "a = 2", "a >= b + 1", "not c", "c and not e", "c AND e OR c", "( c || e ) && c", "a in ( 1 , 3 )", "a not in ( 'x y' , b )", "l contains_any ( 1 , 7 )", "l CONTAINS_ALL ( 3 )", "a 1 to 5", "- a - - 2", "a * ( b - 1 ) / 2 ^ 2 % 3",
            "min ( a , 2 ) > 1", "len ( 'a  b' ) = 4", "days_elapsed ( t ) < 9", "t = 2024-02-03", "a != null", "v > 1.2.3", "a.q.r = 'x'", "a <= 1.5 or c", "c = true", "'in' = \"it's\"", "> 1 and < 5" >>
NB == Len(Bases)
\* the tokens of a base, the spaces within quotes kept
RECURSIVE Cut(_)
Cut(ts) == IF Len(ts) = 1 THEN << >> ELSE << ts[1].t >> \o Cut(Tail(ts))
Toks == [k \in 1..NB |-> Cut(Lex(Codes(Bases[k])).toks)]
Gaps == << << 32 >>, << >>, << 9 >>, << 10 >>, << 13 >>, << 13, 10 >>, << 12 >>, << 32, 32, 32 >>, << 9, 32, 10 >>, << 160 >>, << 11 >>, << 8195 >>, << 8203 >>, << 65279 >>, << 0 >>, << 133 >>, << 8232 >>, << 28 >>, << 92, 110 >>, << 35 >>, << 59 >>,
           << 32, 160 >>, << 46 >>, << 95 >>, << 47, 47 >>, << 96 >> >>
NG == Len(Gaps)
IsWhite(g) == g # << >> /\ \A k \in 1..Len(g) : IsSpaceC(g[k])
MaxGaps == 16
SpacesCount == NB * MaxGaps * NG * (1 + MaxGaps) * 2
Ts(i) == Toks[1 + Digit(i, 1, NB)]
G1(i) == Digit(i, NB, MaxGaps)
F1(i) == Gaps[1 + Digit(i, NB * MaxGaps, NG)]
G2(i) == Digit(i, NB * MaxGaps * NG, 1 + MaxGaps) - 1
Tight(i) == Digit(i, NB * MaxGaps * NG * (1 + MaxGaps), 2) = 1
\* the other gap is filled like the first or, every other time, with the next filler
F2(i) == IF i % 2 = 0 THEN F1(i) ELSE Gaps[1 + ((Digit(i, NB * MaxGaps, NG) + G1(i)) % NG)]
\* the gap that is otherwise between two tokens: nothing where nothing is needed, or one space
Needed(l, r) == IsFieldC(l[Len(l)]) /\ IsFieldC(r[1])
Usual(ts, k, tight) == IF k = 0 \/ k = Len(ts) THEN << >> ELSE IF ~tight \/ Needed(ts[k], ts[k + 1]) THEN << 32 >> ELSE << >>
Filler(i, k) == IF k = G1(i) THEN F1(i) ELSE IF k = G2(i) THEN F2(i) ELSE Usual(Ts(i), k, Tight(i))
RECURSIVE Build(_, _)
Build(i, k) == Filler(i, k) \o (IF k = Len(Ts(i)) THEN << >> ELSE Ts(i)[k + 1] \o Build(i, k + 1))
Text1(i) == Build(i, 0)
Real(i) == G1(i) <= Len(Ts(i)) /\ G2(i) <= Len(Ts(i)) /\ G2(i) # G1(i) /\ (G2(i) = -1 \/ G1(i) < G2(i))
Def(i) == IF Ts(i)[1] = << 62 >> THEN Codes("a") ELSE << >>
Data == << Entry(Codes("a"), I("3")), Entry(Codes("b"), D("1.5")), Entry(Codes("c"), VBool(TRUE)), Entry(Codes("e"), VBool(FALSE)), Entry(Codes("l"), ListV(<< I("5"), I("3") >>)),
           Entry(Codes("v"), V("1.10.0")), Entry(Codes("t"), VDate(2024, 2, 3)), Entry(Codes("nota"), VBool(TRUE)), Entry(Codes("notc"), VBool(TRUE)) >>
SpacesVectors(i) == IF ~Real(i) THEN << >> ELSE << Call("P", Text1(i), Def(i), << >>) >> \o (IF i % 3 = 0 THEN << Call("B", Text1(i), Def(i), Data) >> ELSE << >>)

Harmless(i, k) == LET f == Filler(i, k) IN IsWhite(f) \/ (f = << >> /\ (k \in {0, Len(Ts(i))} \/ ~Needed(Ts(i)[k], Ts(i)[k + 1])))
Foreign(f) == \E k \in 1..Len(f) : f[k] \in {160, 11, 8195, 8203, 65279, 0, 133, 8232, 28, 92, 35, 59, 96}
SpacesBroken(i) ==
  IF ~Real(i) THEN {}
  ELSE LET p == Parse(Text1(i), Def(i)) base == Parse(Codes(Bases[1 + Digit(i, 1, NB)]), Def(i)) IN
       (IF \A k \in 0..Len(Ts(i)) : Harmless(i, k) \/ (k < Len(Ts(i)) /\ k > 0 /\ {Ts(i)[k], Ts(i)[k + 1]} \subseteq {<< 45 >>, << 61 >>, << 33 >>, << 60 >>, << 62 >>} /\ Filler(i, k) = << >>)
           THEN (IF p = base THEN {} ELSE {"white space does not matter"}) ELSE {})
       \cup (IF (\E k \in 0..Len(Ts(i)) : Foreign(Filler(i, k))) /\ p.ok THEN {"no white space"} ELSE {})

INSTANCE Grid WITH Count <- SpacesCount, Vectors <- SpacesVectors, Broken <- SpacesBroken
=============================================================================
