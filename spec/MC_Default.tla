------------------------------ MODULE MC_Default ------------------------------
(***************************************************************************)
(* Expressions with one or two operands left out, for every way a default  *)
(* field can be named: what is left out reads the default field, wherever  *)
(* it stands, and a name that is written is never replaced.                *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

\* $ marks the operand that may be left out; x and y are other fields, @ one whose name begins with that of the default field
Forms0 == << "$", "$ = 5", "$ != 'a'", "$ > 2", "$ <= x", "$ >= 1.2.3", "$ < 2024-01-01", "5 = $", "x = $", "x > $", "x = 5 and $", "$ and x = 5", "$ > 2 and $ < 9", "$ = 1 or $ = 5", "x = 5 and $ > 2 or $ = 7",
             "( $ )", "( $ > 2 )", "not ( $ = 4 )", "not $", "( x or $ ) and y", "- $", "$ + 1", "$ * 2", "1 + $", "2 * $ = 10", "$ / 2 > 1", "$ ^ 2", "7 % $", "x * ( $ + 1 )", "$ + $", "( $ ) - ( $ )", "$ = null", "$ != null",
             "null = $", "min ( $ )", "max ( x , $ )", "sum ( $ , 1 )", "sum ( $ , $ )", "avg ( 1 , $ , 3 )", "len ( $ )", "int ( $ ) = 5", "days_elapsed ( $ )", "x in ( $ )", "x in ( 1 , $ )", "x in ( $ , 5 )", "x not in ( $ )",
             "l contains_any ( $ )", "l contains_all ( 5 , $ )", "x in ( $ + 1 , 6 )", "$ in ( 1 , 5 )", "$ not in ( 1 )", "$ contains_any ( 5 )", "$ 1 to 9", "$ - 1", "$ = true", "x and $ = 'a' and y", "$ = 'a' and x or y",
             "not $ = 5", "min ( $ * 2 , x ) > $", "@ = null and $ > 3", "@ = 1 or $ = 5", "$ > 2 and @ != null or $ = 'a'", "@ in ( $ , 1 )", "min ( @ , $ , @ )", "x 1 to 9 and $", "$ , 5", "x $", "x = $ )", "( $ = 5", "$ = $" >>
FormWords == [k \in 1..Len(Forms0) |-> SelectSeq(SplitAll(Codes(Forms0[k]), 32), LAMBDA w : w # << >>)]
NF == Len(Forms0)

\* default fields: ordinary names and names no expression can write
Names == << Codes("d"), Codes("a.b"), Codes("D"), Codes("my field"), Codes("min"), Codes("and"), Codes("true"), Codes("null"), Codes("5"), Codes("d-e"), Codes("'q'"), Codes("(d)"), VStr(<< 233 >>).t, Codes("a.b.c.d"), Codes("x"), Codes("d.e.f"),
            Codes(" d "), << >>, Codes("  "), << 9, 10 >> >>
NN == Len(Names)
Blank == {<< >>, Codes("  "), << 9, 10 >>}
ValuesOf == << I("5"), VBool(TRUE), S("a"), D("5.0"), VDate(2024, 1, 1), V("1.2.3"), S("x"), ListV(<< I("5"), I("1") >>), L("5"), VBool(FALSE) >>
NV == Len(ValuesOf)

DefaultCount == NF * NN * NV * 2
Near(d) == IF \E k \in 1..Len(d) : d[k] \notin {46} \cup 97..122 THEN Codes("d.k") ELSE d \o (IF Len(d) % 2 = 1 THEN Codes(".k") ELSE Codes("k"))
Form(i) == LET ws == FormWords[1 + Digit(i, 1, NF)] d == Names[1 + Digit(i, NF, NN)] IN [k \in 1..Len(ws) |-> IF ws[k] = << 64 >> THEN Near(d) ELSE ws[k]]
Def(i) == Names[1 + Digit(i, NF, NN)]
Val(i) == ValuesOf[1 + Digit(i, NF * NN, NV)]
Twice(i) == Digit(i, NF * NN * NV, 2)

Mark == Codes("$")
RECURSIVE Written(_, _, _), LeftOut(_, _), Some(_, _, _, _)
Written(ws, name, k) == IF k > Len(ws) THEN << >> ELSE << IF ws[k] = Mark THEN name ELSE ws[k] >> \o Written(ws, name, k + 1)
LeftOut(ws, k) == SelectSeq(ws, LAMBDA w : w # Mark)
\* the first mark is left out and the others written
Some(ws, name, k, done) ==
  IF k > Len(ws) THEN << >>
  ELSE IF ws[k] # Mark THEN << ws[k] >> \o Some(ws, name, k + 1, done)
  ELSE (IF done THEN << name >> ELSE << >>) \o Some(ws, name, k + 1, TRUE)
TextOut(i) == Words(IF Twice(i) = 0 THEN LeftOut(Form(i), 1) ELSE Some(Form(i), Codes("d"), 1, FALSE))

\* what cannot follow an operand that is left out: the rest would be read as the operand, or not at all
Starters == {"(", "NOT", "-", "FIELD", "IN", "TO", "CONTAINS_ANY", "CONTAINS_ALL"} \cup FunctionNames \cup LiteralTokens
RECURSIVE Followers(_, _)
Followers(ws, k) == IF k > Len(ws) THEN {} ELSE (IF ws[k] = Mark /\ (k = Len(ws) \/ ws[k + 1] # Mark) THEN {IF k = Len(ws) THEN "EOF" ELSE Lex(ws[k + 1]).toks[1].ty} ELSE {}) \cup Followers(ws, k + 1)
Omittable(i) == Followers(Form(i), 1) \cap Starters = {}

\* the tree with every field from renamed to to, without the data types comparisons record
RECURSIVE Plainly(_, _, _), PlainlyAll(_, _, _, _)
PlainlyAll(ns, from, to, k) == IF k > Len(ns) THEN << >> ELSE << Plainly(ns[k], from, to) >> \o PlainlyAll(ns, from, to, k + 1)
Plainly(n, from, to) ==
  CASE n.t = "field" -> (IF n.f = from THEN NField(to) ELSE n)
    [] n.t = "lit" -> (IF n.v.k = "str" /\ n.v.t = from THEN NLit(n.ty, VStr(to)) ELSE n)
    [] n.t \in {"neg", "not"} -> [n EXCEPT !.l = Plainly(n.l, from, to)]
    [] n.t = "cmp" -> [n EXCEPT !.l = Plainly(n.l, from, to), !.r = Plainly(n.r, from, to), !.dt = "STRING"]
    [] n.t \in {"arith", "logic"} -> [n EXCEPT !.l = Plainly(n.l, from, to), !.r = Plainly(n.r, from, to)]
    [] n.t \in {"fn", "in", "arr"} -> [n EXCEPT !.args = PlainlyAll(n.args, from, to, 1)]
    [] OTHER -> n

\* the default field's value, where a name with dots leads, and beside it what a wrong reading would find
RECURSIVE Deep(_, _, _)
Deep(ps, k, v) == IF k = Len(ps) THEN << Entry(ps[k], v) >> ELSE << Entry(ps[k], MapV(Deep(ps, k + 1, v))) >>
Others == << Entry(Codes("x"), I("5")), Entry(Codes("y"), VBool(TRUE)), Entry(Codes("l"), ListV(<< I("5"), I("7") >>)) >>
Data(i) ==
  LET d == Def(i) v == Val(i) IN
  IF d \in Blank THEN Others \o << Entry(Codes("d"), v), Entry(d, v) >>
  ELSE IF d = Codes("x") THEN << Entry(d, v) >> \o SubSeq(Others, 2, 3) \o << Entry(Codes("d"), I("7")) >>
  ELSE Deep(JavaSplit(d, 46), 1, v) \o Others \o (IF JavaSplit(d, 46)[1] = Codes("d") THEN << >> ELSE << Entry(Codes("d"), I("7")) >>)

DefaultVectors(i) ==
  << Call("P", TextOut(i), Def(i), << >>), Call("B", TextOut(i), Def(i), Data(i)) >>
  \o (IF i % 5 = 0 THEN << Call("B", Words(Written(Form(i), Codes("d"), 1)), Def(i), Data(i)) >> ELSE << >>)

AllMap(i) == [k |-> "map", e |-> Data(i), t |-> << >>, td |-> 739900]
DefaultBroken(i) ==
  LET d == Def(i) out == Parse(TextOut(i), d) full == Parse(Words(Written(Form(i), Codes("d"), 1)), << >>)
      zz == Codes("zz") twoOut == Parse(TextOut(i), zz)
      IsName == Lex(d).ok /\ Len(Lex(d).toks) = 2 /\ Lex(d).toks[1] = [ty |-> "FIELD", t |-> d]
  IN (IF Twice(i) = 0 /\ Omittable(i) /\ full.ok /\ d \notin Blank /\ (d # Codes("null")) => out.ok /\ Plainly(out.v, d, d) = Plainly(full.v, Codes("d"), d) THEN {} ELSE {"left out means the default field"})
     \cup (IF Mark \in {Form(i)[k] : k \in 1..Len(Form(i))} /\ Omittable(i) /\ full.ok /\ Twice(i) = 0 /\ d \in Blank => ~out.ok THEN {} ELSE {"a blank default field is none"})
     \cup (IF Twice(i) = 0 /\ d \notin Blank => out.ok = twoOut.ok /\ (out.ok => Plainly(out.v, d, d) = Plainly(twoOut.v, zz, d)) THEN {} ELSE {"the name of the default field does not matter"})
     \cup (IF Twice(i) = 0 /\ d \notin Blank /\ IsName /\ out.ok /\ full.ok /\ Omittable(i) /\ d \notin {Codes("null")}
              => LET w == Parse(Words(Written(Form(i), d, 1)), << >>) IN w.ok /\ EvalB(w.v, AllMap(i)) = EvalB(out.v, AllMap(i)) THEN {} ELSE {"written or left out, the outcome is the same"})
     \cup (IF full.ok /\ d \notin Blank => Parse(Words(Written(Form(i), Codes("d"), 1)), d) = full THEN {} ELSE {"what is written is never replaced"})

INSTANCE Grid WITH Count <- DefaultCount, Vectors <- DefaultVectors, Broken <- DefaultBroken
=============================================================================
