------------------------------ MODULE MC_Large ------------------------------
(***************************************************************************)
(* Very large collections, lists, names and texts.  What a call has to     *)
(* answer is a function of the size n, in closed form; TLC checks it       *)
(* against the meaning of the whole text for small n, and the calls of     *)
(* every size carry it, with the text and the data written in short.       *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

\* sizes of data, and of what is written out in the text
DataSizes == << 1, 2, 3, 4, 5, 6, 7, 8, 13, 40, 60, 301, 1024, 5000, 20000, 100000 >>
TextSizes == << 1, 2, 3, 4, 5, 6, 7, 8, 13, 40, 60, 128, 301, 1000, 1500, 2500 >>
NS == Len(DataSizes)
LawUpTo == 60
Nr(n) == VInt(NumOf(n))
C(s) == Codes(s)

-----------------------------------------------------------------------------
(* texts in short: pieces repeated n times, or numbered 1 to n *)
Rep(t, n) == [kind |-> "rep", t |-> t, n |-> n]
Txt(s) == Rep(C(s), 1)
UpTo1(t, n, sep) == [kind |-> "upto", t |-> t, n |-> n, sep |-> sep]
RECURSIVE Times(_, _), Numbered(_, _, _, _)
Times(t, n) == IF n = 0 THEN << >> ELSE t \o Times(t, n - 1)
Numbered(t, n, sep, k) == IF k > n THEN << >> ELSE (IF k = 1 THEN << >> ELSE sep) \o t \o SmallNatText(k) \o Numbered(t, n, sep, k + 1)
Piece(p) == IF p.kind = "rep" THEN Times(p.t, p.n) ELSE Numbered(p.t, p.n, p.sep, 1)
RECURSIVE Whole(_, _)
Whole(ps, i) == IF i > Len(ps) THEN << >> ELSE Piece(ps[i]) \o Whole(ps, i + 1)
(* values in short *)
Count1(n) == [k |-> "upto", n |-> n]
Copies(v, n) == [k |-> "reps", v |-> v, n |-> n]
Array1(n) == [k |-> "uptoarr", n |-> n]
Chars(t, n) == [k |-> "strs", t |-> t, n |-> n]
Full(v) ==
  CASE v.k = "upto" -> ListV([k \in 1..v.n |-> Nr(k)]) [] v.k = "reps" -> ListV([k \in 1..v.n |-> v.v]) [] v.k = "uptoarr" -> ArrV([k \in 1..v.n |-> Nr(k)])
    [] v.k = "strs" -> VStr(Times(v.t, v.n)) [] OTHER -> v
E1(s, v) == Entry(C(s), v)
FullData(es) == [k \in 1..Len(es) |-> Entry(es[k].key, Full(es[k].v))]

-----------------------------------------------------------------------------
SumTo(n) == IDiv(IMul(NumOf(n), NumOf(n + 1)), NumOf(2))
Num(n) == Ok(CastLong(n))
Mean(n) == Ok(CastDec(DDivDown(DecOfNum(SumTo(n)), DecOfNum(NumOf(n)), 3)))
Ask(api, x, data, want) == [api |-> api, parts |-> x, data |-> data, want |-> want]
True1 == Ok(TRUE)
False1 == Ok(FALSE)
Xs(n) == E1("xs", Count1(n))
Ks(n) == E1("k", Nr(n))
OverData(n) == <<
  Ask("A", << Txt("sum(xs)") >>, << Xs(n) >>, Num(SumTo(n))),
  Ask("A", << Txt("max(xs)") >>, << Xs(n) >>, Num(NumOf(n))),
  Ask("A", << Txt("min(xs, xs)") >>, << Xs(n) >>, Num(NumOf(1))),
  Ask("A", << Txt("avg(xs)") >>, << Xs(n) >>, Mean(n)),
  Ask("A", << Txt("median(xs)") >>, << Xs(n) >>, Mean(n)),
  Ask("A", << Txt("len(xs)") >>, << Xs(n) >>, Num(NumOf(n))),
  Ask("A", << Txt("len(xs, 1, xs)") >>, << Xs(n) >>, Num(NumOf(2 * n + 1))),
  Ask("A", << Txt("sum(ds)") >>, << E1("ds", Copies(D("0.1"), n)) >>, Ok(CastDec(MkDec(NumOf(n), 1)))),
  Ask("A", << Txt("mean(ds, ds)") >>, << E1("ds", Copies(D("2.5"), n)) >>, Ok(VDec(D("2.5").d))),
  Ask("A", << Txt("mode(rs)") >>, << E1("rs", Copies(I("7"), n)) >>, Num(NumOf(7))),
  Ask("A", << Txt("sum(xs, s)") >>, << Xs(n), E1("s", S("a")) >>, Fail),
  Ask("A", << Txt("int(xs, 1)") >>, << Xs(n) >>, Fail),
  Ask("A", << Txt("sum(xs, j)") >>, << Xs(n) >>, NotFound),
  Ask("A", << Txt("xs + 1") >>, << Xs(n), E1("one", Nr(1)) >>, Unspec),
  Ask("B", << Txt("xs contains_any (0, k)") >>, << Xs(n), Ks(n) >>, True1),
  Ask("B", << Txt("xs contains_any (0, k)") >>, << Xs(n), Ks(n + 1) >>, False1),
  Ask("B", << Txt("xs contains_all (1, k)") >>, << Xs(n), Ks(n) >>, True1),
  Ask("B", << Txt("xs contains_all (1, k)") >>, << Xs(n), Ks(n + 1) >>, False1),
  Ask("B", << Txt("as contains_any (k)") >>, << E1("as", Array1(n)), Ks(n) >>, True1),
  Ask("B", << Txt("as contains_all (k, 0)") >>, << E1("as", Array1(n)), Ks(n) >>, False1),
  Ask("B", << Txt("xs contains_all (xs)") >>, << Xs(IF n > 5000 THEN 5000 ELSE n) >>, True1),
  Ask("B", << Txt("k in (xs)") >>, << Xs(n), Ks(n) >>, True1),
  Ask("B", << Txt("k in (xs)") >>, << Xs(n), Ks(0) >>, False1),
  Ask("B", << Txt("k not in (xs, 0)") >>, << Xs(n), Ks(n + 1) >>, True1),
  Ask("B", << Txt("k in (ws, '1')") >>, << E1("ws", Copies(S("a"), n)), Ks(1) >>, Unspec),
  Ask("B", << Txt("ws contains_all ('ab')") >>, << E1("ws", Copies(S("ab"), n)) >>, True1),
  Ask("B", << Txt("ws contains_all ('ab', 'a')") >>, << E1("ws", Copies(S("ab"), n)) >>, False1),
  Ask("B", << Txt("sum(xs) = t and max(xs) = k") >>, << Xs(n), Ks(n), E1("t", CastLong(SumTo(n))) >>, True1),
  Ask("B", << Txt("not (k > avg(xs))") >>, << Xs(n), Ks(1) >>, True1),
  Ask("B", << Txt("s = t") >>, << E1("s", Chars(C("ab"), n)), E1("t", Chars(C("ab"), n)) >>, True1),
  Ask("B", << Txt("s = t") >>, << E1("s", Chars(C("ab"), n)), E1("t", Chars(C("ab"), n + 1)) >>, False1),
  Ask("B", << Txt("(s + 'ab') = t") >>, << E1("s", Chars(C("ab"), n)), E1("t", Chars(C("ab"), n + 1)) >>, True1),
  Ask("B", << Txt("t > s") >>, << E1("s", Chars(C("ab"), n)), E1("t", Chars(C("ab"), n + 1)) >>, True1),
  Ask("A", << Txt("len(s)") >>, << E1("s", Chars(C("ab"), n)) >>, Num(NumOf(2 * n))),
  Ask("A", << Txt("len(s + s)") >>, << E1("s", Chars(C("a"), n)) >>, Num(NumOf(2 * n)))
>>
Items(n) == UpTo1(<< >>, n, C(", "))
Letters(n) == Rep(C("x"), n)
OverText(n) == <<
  Ask("B", << Txt("k in ("), Items(n), Txt(")") >>, << Ks(n) >>, True1),
  Ask("B", << Txt("k in ("), Items(n), Txt(")") >>, << Ks(n + 1) >>, False1),
  Ask("B", << Txt("k not in ("), UpTo1(<< >>, n, << 44 >>), Txt(")") >>, << Ks(0) >>, True1),
  Ask("B", << Txt("k in ("), UpTo1(C("'a"), n, C("', ")), Txt("')") >>, << E1("k", VStr(C("a") \o SmallNatText(n))) >>, True1),
  Ask("B", << Txt("xs contains_any (0, "), Items(n), Txt(")") >>, << E1("xs", ListV(<< Nr(n) >>)) >>, True1),
  Ask("B", << Txt("xs contains_all ("), Items(n), Txt(")") >>, << Xs(n) >>, True1),
  Ask("B", << Txt("xs contains_all ("), Items(n), Txt(", 0)") >>, << Xs(n) >>, False1),
  Ask("A", << Txt("sum("), Items(n), Txt(")") >>, << >>, Num(SumTo(n))),
  Ask("A", << Txt("min("), Items(n), Txt(", -k)") >>, << Ks(n) >>, Num(NumOf(-n))),
  Ask("A", << Txt("mean("), Items(n), Txt(")") >>, << >>, Mean(n)),
  Ask("A", << Txt("len("), Items(n), Txt(", xs)") >>, << Xs(n) >>, Num(NumOf(2 * n))),
  Ask("A", << Txt("max("), Rep(C("k, "), n), Txt("0)") >>, << Ks(5) >>, Num(NumOf(5))),
  Ask("B", << Txt("k in ("), Rep(C("1, "), n), Txt("j)") >>, << Ks(5) >>, NotFound),
  Ask("B", << Txt("k in ("), Items(n) >>, << Ks(5) >>, Unspec),
  Ask("B", << Txt("k in ("), Items(n), Txt(",)") >>, << Ks(5) >>, Fail),
  Ask("B", << Txt("s = '"), Letters(n), Txt("'") >>, << E1("s", Chars(C("x"), n)) >>, True1),
  Ask("B", << Txt("s = \""), Letters(n), Txt("y\"") >>, << E1("s", Chars(C("x"), n + 1)) >>, False1),
  Ask("A", << Txt("len('"), Rep(C("x "), n), Txt("')") >>, << >>, Num(NumOf(2 * n))),
  Ask("B", << Letters(n), Txt(" = 5") >>, << Entry(Times(C("x"), n), Nr(5)) >>, True1),
  Ask("B", << Letters(n), Txt("y = 5") >>, << Entry(Times(C("x"), n), Nr(5)) >>, NotFound),
  Ask("B", << Txt("k"), Rep(<< 32 >>, n), Txt("="), Rep(<< 10 >>, n), Txt("5"), Rep(<< 9 >>, n) >>, << Ks(5) >>, True1),
  Ask("B", << Txt("k = 1."), Rep(<< 48 >>, n) >>, << Ks(1) >>, True1),
  Ask("B", << Txt("k = 1."), Rep(<< 48 >>, n), Txt("1") >>, << Ks(1) >>, False1),
  Ask("B", << Txt("'"), Letters(n), Txt("' = s") >>, << E1("s", Chars(C("x"), n)) >>, True1),
  Ask("B", << Txt("s = '"), Letters(n) >>, << E1("s", Chars(C("x"), n)) >>, Fail)
>>
QD == Len(OverData(1))
QT == Len(OverText(1))
LargeCount == NS * (QD + QT)
Question(i) == LET s == 1 + Digit(i, 1, NS) q == 1 + (i \div NS) IN IF q <= QD THEN OverData(DataSizes[s])[q] ELSE OverText(TextSizes[s])[q - QD]
SizeOf(i) == LET s == 1 + Digit(i, 1, NS) IN IF i \div NS < QD THEN DataSizes[s] ELSE TextSizes[s]
Says(q) == LET m == [k |-> "map", e |-> FullData(q.data), t |-> << >>, td |-> 0] p == Parse(Whole(q.parts, 1), << >>) IN
           IF ~p.ok THEN p ELSE IF q.api = "B" THEN EvalB(p.v, m) ELSE EvalA(p.v, m)
Alike(q, a) == IF q.api = "A" /\ a.ok /\ q.want.ok THEN SameV(Canon(a.v), Canon(q.want.v)) ELSE a = q.want
LargeVectors(i) == LET q == Question(i) IN << [api |-> q.api, x |-> << >>, def |-> << >>, parts |-> q.parts, data |-> q.data, want |-> q.want] >>
LargeBroken(i) == LET q == Question(i) IN IF SizeOf(i) > LawUpTo \/ q.want = Unspec THEN {} ELSE LET s == Says(q) IN IF Alike(q, s) THEN {} ELSE {<< i \div NS, s, q.want >>}

INSTANCE Grid WITH Count <- LargeCount, Vectors <- LargeVectors, Broken <- LargeBroken
=============================================================================
