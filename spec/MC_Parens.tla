------------------------------ MODULE MC_Parens ------------------------------
(***************************************************************************)
(* Expressions of every form with redundant brackets around every part,    *)
(* and around every two parts, once, twice or seven times, with and        *)
(* without spaces in them: the meaning is that of the bare expression.     *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Bases == << "a = 2", "a > b + 1", "not c", "not a = 3", "not ( c or e )", "c and e or c", "c or e and c", "c or ( e and c )", "a = 3 and b < 5 and not e", "a in ( 1 , 3 )", "a not in ( 2 , b + 1 )", "l contains_any ( 1 , 7 )",
            "l contains_all ( 5 , a )", "a 1 to 5", "a 1 to 5 and c", "- a + 2 * 3", "a - b - 1", "a - ( b - 1 )", "a * b / 2 * 3", "2 ^ a ^ 1", "( 2 ^ a ) ^ 2", "7 % a * 2", "- ( a + b )", "- - a", "min ( a , 2 , b * 3 ) > 1",
            "len ( l ) = 2", "sum ( a , - b ) + int ( d )", "c = true and e != true", "v >= 1.2.3", "s = 'abc'", "s + 'x' + 1", "'n' + ( 1 + 2 )", "u = null", "null != a", "a.q = null or c", "t < 2024-02-29", "max ( l , a ) * 2 = min ( 10 , 20 )",
            "( a = 3 ) = true", "not ( a in ( 1 ) or b 1 to 2 )", "avg ( 1 , a ) = mean ( 1.5 , median ( a ) ) or c", "days_elapsed ( t ) >= 0", "= 2", "> 1 and < 5", "x in ( ( a = 3 ) , 4 )" >>
NB == Len(Bases)
MostNodes == 18
ParensCount == NB * MostNodes * (MostNodes + 1) * 6
BaseText(i) == Codes(Bases[1 + Digit(i, 1, NB)])
First(i) == 1 + Digit(i, NB, MostNodes)
Second(i) == Digit(i, NB * MostNodes, MostNodes + 1)
Style(i) == Digit(i, NB * MostNodes * (MostNodes + 1), 6)
Def(i) == IF BaseText(i)[1] \in {60, 61, 62} THEN Codes("a") ELSE << >>
Data == << Entry(Codes("a"), I("3")), Entry(Codes("b"), D("1.5")), Entry(Codes("c"), VBool(TRUE)), Entry(Codes("e"), VBool(FALSE)), Entry(Codes("d"), D("7.9")), Entry(Codes("l"), ListV(<< I("5"), I("3") >>)),
           Entry(Codes("v"), V("1.10.0")), Entry(Codes("s"), S("abc")), Entry(Codes("t"), VDate(2024, 2, 3)), Entry(Codes("x"), VBool(TRUE)) >>
M0 == [k |-> "map", e |-> Data, t |-> << >>, td |-> 739900]
Default0(t, d) == Parse(t, d)
Tree(i) == Default0(BaseText(i), Def(i))

RECURSIVE NodesOf(_), NodesOfAll(_, _)
NodesOfAll(ns, k) == IF k > Len(ns) THEN 0 ELSE NodesOf(ns[k]) + NodesOfAll(ns, k + 1)
NodesOf(n) ==
  CASE n.t \in {"field", "lit", "range"} -> 1
    [] n.t = "not" /\ n.l.t = "in" -> NodesOf(n.l)
    [] n.t \in {"neg", "not"} -> 1 + NodesOf(n.l)
    [] n.t \in {"cmp", "arith", "logic"} -> 1 + NodesOf(n.l) + NodesOf(n.r)
    [] OTHER -> 1 + NodesOfAll(n.args, 1)

Open(style) == CASE style % 3 = 0 -> << 40 >> [] style % 3 = 1 -> << 40, 32 >> [] OTHER -> << 32, 40, 10, 40, 9 >>
Shut(style) == CASE style % 3 = 0 -> << 41 >> [] style % 3 = 1 -> << 32, 41 >> [] OTHER -> << 9, 41, 41, 32 >>
RECURSIVE Enclose(_, _, _)
Enclose(t, style, k) == IF k = 0 THEN t ELSE Enclose(Open(style) \o t \o Shut(style), style, k - 1)
\* n written with brackets around the parts numbered in ks; the first part of n has number at
RECURSIVE ShowW(_, _, _, _, _), ShowWItems(_, _, _, _, _)
ShowWItems(ns, k, ks, at, st) == IF k > Len(ns) THEN << >> ELSE << ShowW(ns[k], 0, ks, at, st) >> \o ShowWItems(ns, k + 1, ks, at + NodesOf(ns[k]), st)
ShowW(n, lv, ks, at, st) ==
  LET here == at \in ks
      level == IF here THEN 0 ELSE lv
      body ==
        CASE n.t \in {"field", "lit", "range"} -> Show(n, level)
          [] n.t = "not" /\ n.l.t = "in" -> n.l.f \o Codes(" not in ") \o ListText(ShowWItems(n.l.args, 1, ks, at + 1, st))
          [] n.t = "not" -> Codes("not ") \o (IF n.l.t = "lit" /\ n.l.v.k = "str" /\ \A i \in 1..Len(n.l.v.t) : IsFieldC(n.l.v.t[i])
                                              THEN (IF at + 1 \in ks THEN Enclose(n.l.v.t, st, IF st < 3 THEN 1 ELSE 3) ELSE n.l.v.t) ELSE ShowW(n.l, NotOperandLevel, ks, at + 1, st))
          [] n.t = "neg" -> (LET s == << 45 >> \o ShowW(n.l, MinusOperandLevel, ks, at + 1, st) IN IF level > MinusOperandLevel THEN Paren(s) ELSE s)
          [] n.t \in {"cmp", "arith", "logic"} ->
               (LET l == Level(n.op) s == Words(<< ShowW(n.l, l, ks, at + 1, st), OpText(n.op), ShowW(n.r, l + 1, ks, at + 1 + NodesOf(n.l), st) >>) IN IF l < level THEN Paren(s) ELSE s)
          [] n.t = "fn" -> Lower(Codes(n.g)) \o ListText(ShowWItems(n.args, 1, ks, at + 1, st))
          [] n.t = "in" -> n.f \o Codes(" in ") \o ListText(ShowWItems(n.args, 1, ks, at + 1, st))
          [] n.t = "arr" -> n.f \o << 32 >> \o Lower(Codes(n.op)) \o << 32 >> \o ListText(ShowWItems(n.args, 1, ks, at + 1, st))
  IN IF here THEN Enclose(body, st, IF st < 3 THEN 1 ELSE 3) ELSE body
TextW(i) == ShowW(Tree(i).v, 0, {First(i), Second(i)} \ {0}, 1, Style(i))
Real(i) == First(i) <= NodesOf(Tree(i).v) /\ Second(i) <= NodesOf(Tree(i).v) /\ (Second(i) = 0 \/ Second(i) > First(i))

RECURSIVE NoTypes(_), NoTypesAll(_, _)
NoTypesAll(ns, k) == IF k > Len(ns) THEN << >> ELSE << NoTypes(ns[k]) >> \o NoTypesAll(ns, k + 1)
NoTypes(n) ==
  CASE n.t \in {"field", "lit", "range"} -> n
    [] n.t \in {"neg", "not"} -> [n EXCEPT !.l = NoTypes(n.l)]
    [] n.t = "cmp" -> [n EXCEPT !.l = NoTypes(n.l), !.r = NoTypes(n.r), !.dt = "STRING"]
    [] n.t \in {"arith", "logic"} -> [n EXCEPT !.l = NoTypes(n.l), !.r = NoTypes(n.r)]
    [] OTHER -> [n EXCEPT !.args = NoTypesAll(n.args, 1)]

ParensVectors(i) ==
  IF ~Real(i) THEN << >>
  ELSE << Call("P", TextW(i), << >>, << >>), Call("B", TextW(i), << >>, Data) >> \o (IF Tree(i).v.t \in {"arith", "neg", "fn"} THEN << Call("A", TextW(i), << >>, Data) >> ELSE << >>)
ParensBroken(i) ==
  IF ~Real(i) THEN {}
  ELSE LET p == Parse(TextW(i), << >>) n == Tree(i).v IN
       IF ~p.ok THEN {"still an expression"}
       ELSE (IF NoTypes(p.v) = NoTypes(n) THEN {} ELSE {"the same tree"})
            \cup (IF EvalB(p.v, M0) = EvalB(n, M0) /\ EvalA(p.v, M0) = EvalA(n, M0) THEN {} ELSE {"the same outcome"})
            \cup (IF Parse(TextW(i) \o << 41 >>, << >>).ok THEN {"one bracket too many"} ELSE {})

INSTANCE Grid WITH Count <- ParensCount, Vectors <- ParensVectors, Broken <- ParensBroken
=============================================================================
