------------------------------ MODULE MC_Sizes ------------------------------
(***************************************************************************)
(* The same few questions at every size: lists, collections, arguments,    *)
(* rows of operands, brackets, paths, names, texts, numbers and data maps  *)
(* of 1 to some hundred parts, with the part that decides at the           *)
(* beginning, in the middle, at the end or nowhere.  VP_PICK names the     *)
(* group of questions.                                                     *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Sizes == [k \in 1..36 |-> k] \o << 40, 47, 48, 49, 50, 51, 63, 64, 65, 72, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257 >>
NS == Len(Sizes)
Groups == [sets |-> << "in", "notin", "any", "all" >>,
           numbers |-> << "sum", "extremes", "average", "median", "mode", "len", "plus", "digits", "product" >>,
           shape |-> << "ors", "ands", "brackets", "nots", "signs", "calls", "spaces", "mixed" >>,
           names |-> << "path", "hole", "text", "name", "entries", "join" >>]
Kinds == Groups[IOEnv.VP_PICK]
NK == Len(Kinds)
SizesCount == NS * NK * 12
SizeOf(i) == Sizes[1 + Digit(i, 1, NS)]
Kind(i) == Kinds[1 + Digit(i, NS, NK)]
\* the part that decides: the first, the one in the middle, the last, or none (0)
At(i) == LET n == SizeOf(i) q == Digit(i, NS * NK, 4) IN CASE q = 0 -> 1 [] q = 1 -> (n + 1) \div 2 [] q = 2 -> n [] OTHER -> 0
Style(i) == Digit(i, NS * NK * 4, 3)

Nr(n) == VInt(NumOf(n))
NumT(n) == SmallNatText(n)
ListOf(ns) == ListV([k \in 1..Len(ns) |-> Nr(ns[k])])
E1(key, v) == Entry(Codes(key), v)
RECURSIVE Wrap(_, _, _, _)
Wrap(open, t, close, n) == IF n = 0 THEN t ELSE Wrap(open, open \o t \o close, close, n - 1)
RECURSIVE Repeat(_, _)
Repeat(t, n) == IF n = 0 THEN << >> ELSE t \o Repeat(t, n - 1)
RECURSIVE Nest(_, _)
\* a map in a map in a map
Nest(v, n) == IF n = 0 THEN v ELSE Nest(MapV(<< Entry(Codes("k"), v) >>), n - 1)
Ask(api, x, data, want) == [api |-> api, x |-> x, data |-> data, want |-> want]
Says(b) == Ok(b)

\* 10, 20, ..., the part at p being 5
Row(n, p) == [k \in 1..n |-> IF k = p THEN 5 ELSE 10 * k]
\* a list of the numbers: written out, from one collection, or the first half written and the rest from a collection
RowText(ns, style) ==
  CASE style = 0 -> ListText([k \in 1..Len(ns) |-> NumT(ns[k])])
    [] style = 1 -> ListText(<< Codes("c") >>)
    [] OTHER -> LET h == Len(ns) \div 2 IN ListText([k \in 1..(h + 1) |-> IF k <= h THEN NumT(ns[k]) ELSE Codes("c")])
RowData(ns, style) == IF style = 0 THEN << >> ELSE << E1("c", ListOf(IF style = 1 THEN ns ELSE SubSeq(ns, Len(ns) \div 2 + 1, Len(ns)))) >>

RECURSIVE SumOf(_, _)
SumOf(ns, k) == IF k > Len(ns) THEN 0 ELSE ns[k] + SumOf(ns, k + 1)
DigitsText(n, p) == [k \in 1..n |-> IF k = p THEN 55 ELSE 51]
Small(n) == IF n > 64 THEN 64 ELSE n

Question(i) ==
  LET n == SizeOf(i) p == At(i) st == Style(i) row == Row(n, p) kd == Kind(i) IN
  CASE kd = "in" -> Ask("B", Codes("x in ") \o RowText(row, st), RowData(row, st) \o << E1("x", IF i % 2 = 0 THEN Nr(5) ELSE VDec(MkDec(NumOf(50), 1))) >>, Says(p # 0))
    [] kd = "notin" -> Ask("B", Codes("x not in ") \o RowText(row, st), RowData(row, st) \o << E1("x", Nr(5)) >>, Says(p = 0))
    [] kd = "any" -> Ask("B", Codes("l contains_any ") \o ListText(IF st = 0 THEN << NumT(5) >> ELSE << NumT(7), NumT(5), NumT(8) >>),
                         << E1("l", IF st = 2 THEN ArrV([k \in 1..n |-> Nr(row[k])]) ELSE ListOf(row)) >>, Says(p # 0))
    [] kd = "all" -> Ask("B", Codes("l contains_all ") \o RowText(row, st), RowData(row, st) \o << E1("l", ListOf([k \in 1..n |-> 10 * (n + 1 - k)])) >>, Says(p = 0))
    [] kd = "sum" -> Ask("A", Codes("sum") \o RowText(row, st), RowData(row, st), Ok(Nr(SumOf(row, 1))))
    [] kd = "extremes" -> (IF i % 2 = 0 THEN Ask("A", Codes("min") \o RowText(row, st), RowData(row, st), Ok(Nr(IF p = 0 THEN 10 ELSE 5)))
                           ELSE LET r2 == [k \in 1..n |-> IF k = p THEN 9999 ELSE k] IN
                                Ask("A", Codes("max") \o RowText(r2, st), RowData(r2, st), Ok(Nr(IF p = 0 THEN n ELSE 9999))))
    [] kd = "average" -> (LET r2 == [k \in 1..n |-> IF k = p THEN 5 + n ELSE 5] IN Ask("A", Codes("avg") \o RowText(r2, st), RowData(r2, st), Ok(Nr(IF p = 0 THEN 5 ELSE 6))))
    [] kd = "median" -> (LET m == IF n > 129 THEN n - 128 ELSE n r2 == [k \in 1..m |-> IF k = p THEN 1000 ELSE 4 + 2 * ((k * 7) % 2)] IN
                         Ask("A", Codes("median") \o RowText(r2, st), RowData(r2, st), CallFn("MEDIAN", [k \in 1..m |-> Nr(r2[k])], [td |-> 0])))
    [] kd = "mode" -> (LET m == Small(n) r2 == [k \in 1..(m + 2) |-> IF k = p \/ k >= m + 1 THEN 3 ELSE 10 + k] IN Ask("A", Codes("mode") \o RowText(r2, st), RowData(r2, st), Ok(Nr(3))))
    [] kd = "len" -> (IF st = 0 THEN Ask("A", Codes("len(s)"), << E1("s", VStr(RepeatC(120, n))) >>, Ok(Nr(n)))
                      ELSE Ask("A", Codes("len") \o RowText(row, st), RowData(row, st), Ok(Nr(n))))
    [] kd = "plus" -> Ask("A", Join([k \in 1..(n + 1) |-> IF k = p THEN Codes("x") ELSE NumT(k)], IF st = 1 THEN << 43 >> ELSE Codes(" + "), 1), << E1("x", Nr(0)) >>,
                          Ok(Nr(((n + 1) * (n + 2)) \div 2 - p)))
    [] kd = "product" -> Ask("A", Join([k \in 1..(Small(n) + 1) |-> IF k = p THEN Codes("x") ELSE Codes("1")], Codes(" * "), 1), << E1("x", Nr(7)) >>, Ok(Nr(IF p = 0 \/ p > Small(n) + 1 THEN 1 ELSE 7)))
    [] kd = "digits" -> (LET t == Codes("0.") \o DigitsText(n, p) u == Codes("0.") \o DigitsText(n, 0) IN
                         IF st = 0 THEN Ask("B", t \o Codes(" > ") \o u, << >>, Says(p # 0))
                         ELSE IF st = 1 THEN Ask("B", Codes("x = y"), << E1("x", VDec(DecOfText(t).d)), E1("y", VDec(DecOfText(u).d)) >>, Says(p = 0))
                         ELSE Ask("A", t \o Codes(" + ") \o u, << >>, Ok(VDec(DAdd(DecOfText(t).d, DecOfText(u).d)))))
    [] kd = "ors" -> Ask("B", Join([k \in 1..n |-> IF k = p THEN Codes("x = 5") ELSE Codes("x = ") \o NumT(10 + k)], IF st = 1 THEN Codes(" || ") ELSE Codes(" or "), 1), << E1("x", Nr(5)) >>, Says(p # 0))
    [] kd = "ands" -> Ask("B", Join([k \in 1..n |-> IF k = p THEN Codes("x = 4") ELSE Codes("x < ") \o NumT(10 + k)], IF st = 1 THEN Codes(" && ") ELSE Codes(" AND "), 1), << E1("x", Nr(5)) >>, Says(p = 0))
    [] kd = "brackets" -> (LET m == Small(n) IN
                           IF st = 0 THEN Ask("B", Wrap(<< 40 >>, Codes("x = 5"), << 41 >>, m), << E1("x", Nr(IF p = 0 THEN 4 ELSE 5)) >>, Says(p # 0))
                           ELSE IF st = 1 THEN Ask("A", Codes("2 * ") \o Wrap(<< 40 >>, Codes("x + 1"), << 41 >>, m), << E1("x", Nr(p)) >>, Ok(Nr(2 * (p + 1))))
                           ELSE Ask("B", Codes("x in (") \o Wrap(<< 40 >>, Codes("4"), << 41 >>, m) \o Codes(", 6)"), << E1("x", Nr(IF p = 0 THEN 4 ELSE 5)) >>, Says(p = 0)))
    [] kd = "nots" -> (LET m == Small(n) IN
                       Ask("B", (IF st = 0 THEN Repeat(Codes("not "), m) \o Codes("x") ELSE Wrap(Codes("not ("), Codes("x"), << 41 >>, m)), << E1("x", VBool(p # 0)) >>, Says((p # 0) = (m % 2 = 0))))
    [] kd = "signs" -> (LET m == Small(n) IN
                        Ask("A", (IF st = 0 THEN Repeat(Codes("- "), m) \o Codes("x") ELSE Wrap(Codes("-("), Codes("x"), << 41 >>, m)), << E1("x", Nr(p)) >>,
                            Ok(IF m % 2 = 0 \/ p = 0 THEN Nr(p) ELSE Nr(-p))))
    [] kd = "calls" -> (LET m == Small(n) IN Ask("A", Wrap(Codes("max("), Codes("x"), Codes(", 3)"), m), << E1("x", Nr(p)) >>, Ok(Nr(IF p > 3 THEN p ELSE 3))))
    [] kd = "spaces" -> (LET gap == RepeatC(IF st = 0 THEN 32 ELSE IF st = 1 THEN 10 ELSE 9, n) g(k) == IF k = p THEN gap ELSE << 32 >> IN
                         Ask("B", g(1) \o Codes("x") \o g((n + 1) \div 2) \o << 61 >> \o gap \o << 53 >> \o g(n), << E1("x", Nr(5)) >>, Says(TRUE)))
    [] kd = "mixed" -> (LET m == Small(n) IN Ask("B", Join([k \in 1..m |-> IF k = p THEN Codes("(x = 5 or z = 1)") ELSE IF k % 2 = 0 THEN Codes("(x = 9 or x > 1)") ELSE Codes("not (x in (1, 2))")], Codes(" and "), 1),
                           << E1("x", IF st = 0 THEN Nr(5) ELSE Nr(6)), E1("z", Nr(IF st = 2 THEN 1 ELSE 0)) >>, Says(p = 0 \/ p > m \/ st # 1)))
    [] kd = "path" -> (LET m == Small(n) key == Join([k \in 1..m |-> Codes("k")], << 46 >>, 1) IN
                       Ask("B", key \o Codes(" = 5"), << E1("k", Nest(Nr(IF p = 0 THEN 4 ELSE 5), m - 1)) >>, Says(p # 0)))
    [] kd = "hole" -> (LET m == Small(n) + 1 q == IF p = 0 \/ p > m THEN m ELSE p key == Join([k \in 1..m |-> IF k = q THEN Codes("j") ELSE Codes("k")], << 46 >>, 1) IN
                       IF st = 0 THEN Ask("B", key \o Codes(" != null"), << E1("k", Nest(Nr(5), m - 1)) >>, Says(FALSE))
                       ELSE Ask(IF st = 1 THEN "A" ELSE "B", IF st = 1 THEN key ELSE key \o Codes(" = 5"), << E1("k", Nest(Nr(5), m - 1)) >>, NotFound))
    [] kd = "text" -> (LET t == [k \in 1..n |-> IF k = p THEN 98 ELSE 97] u == RepeatC(97, n) IN
                       Ask("B", IF st = 0 THEN Codes("s = t") ELSE IF st = 1 THEN Codes("'") \o t \o Codes("' = t") ELSE Codes("s != \"") \o u \o Codes("\""), << E1("s", VStr(t)), E1("t", VStr(u)) >>,
                           Says((p = 0) = (st # 2))))
    [] kd = "name" -> (LET f(q) == [k \in 1..(n + 1) |-> IF k = q THEN 98 ELSE IF k % 5 = 0 THEN 95 ELSE 97] IN
                       Ask("B", f(p) \o Codes(" = 5"), << Entry(f(0), Nr(IF p = 0 THEN 5 ELSE 4)), Entry(f(n + 1), Nr(IF p = 0 THEN 4 ELSE IF p = n + 1 THEN 5 ELSE 3)) >>,
                           IF p = 0 \/ p = n + 1 THEN Says(TRUE) ELSE NotFound))
    [] kd = "entries" -> Ask("B", (IF p = 0 THEN Codes("k0") ELSE Codes("k") \o NumT(p)) \o Codes(" = ") \o NumT(p), [k \in 1..n |-> Entry(Codes("k") \o NumT(k), Nr(k))], IF p = 0 THEN NotFound ELSE Says(TRUE))
    [] kd = "join" -> Ask("A", Join([k \in 1..(Small(n) + 1) |-> IF k = p THEN Codes("x") ELSE Codes("'a'")], Codes(" + "), 1), << E1("x", VStr(Codes("b "))) >>,
                          Ok(VStr(Repeat(Codes("a"), IF p = 0 \/ p > Small(n) + 1 THEN Small(n) + 1 ELSE p - 1) \o (IF p = 0 \/ p > Small(n) + 1 THEN << >> ELSE Codes("b ") \o Repeat(Codes("a"), Small(n) + 1 - p)))))

SizesVectors(i) == LET q == Question(i) IN << Call(q.api, q.x, << >>, q.data) >> \o (IF i % 3 = 0 /\ SizeOf(i) < 70 THEN << Call("P", q.x, << >>, << >>) >> ELSE << >>)
SizesBroken(i) ==
  LET q == Question(i) p == Parse(q.x, << >>) m == [k |-> "map", e |-> q.data, t |-> << >>, td |-> 0]
      got == IF ~p.ok THEN p ELSE IF q.api = "B" THEN EvalB(p.v, m) ELSE EvalA(p.v, m)
      \* the kind of a number of an addition or an aggregate is a matter of other models
      same == got.ok = q.want.ok /\ (IF got.ok /\ q.api = "A" /\ got.v.k \in {"int", "long", "dec"} THEN DCmp(DecOf(got.v), DecOf(q.want.v)) = 0 ELSE got = q.want)
  IN IF same THEN {} ELSE {Kind(i)}

INSTANCE Grid WITH Count <- SizesCount, Vectors <- SizesVectors, Broken <- SizesBroken
=============================================================================
