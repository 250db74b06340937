------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* Evaluation as a machine that makes one step at a time: it goes down a   *)
(* tree from left to right, keeps what is left to do on a stack of frames, *)
(* and looks at its data map once per field.  Eval says what the outcome   *)
(* is; Machine says how it is reached, and which fields are looked at on   *)
(* the way.  MC_Logic checks that the two agree.                           *)
(*   go    : evaluate node n in mode "B" (boolean), "A" (arithmetic) or    *)
(*           "O" (operand of a comparison or item of a list)               *)
(*   back  : hand outcome r to the topmost frame                           *)
(***************************************************************************)
EXTENDS Eval

Go(n, mode, st, reads) == [ctl |-> "go", n |-> n, mode |-> mode, st |-> st, reads |-> reads]
Back(r, st, reads) == [ctl |-> "back", r |-> r, st |-> st, reads |-> reads]
Start(n, mode) == Go(n, mode, << >>, << >>)
Halted(c) == c.ctl = "back" /\ c.st = << >>
Push(f, c) == << f >> \o c.st

\* a field: the one step that looks at the data
ReadField(f, mode, c, m) ==
  LET rs == IF KeyOf(f) = << >> /\ JavaSplit(f, 46) = << >> THEN c.reads ELSE Append(c.reads, KeyOf(f)) IN
  Back(IF mode = "B" THEN BoolField(f, m) ELSE Lookup(f, m), c.st, rs)

GoB(n, c, m) ==
  CASE n.t = "cmp" ->
         (IF n.op \in {"=", "!="} /\ (IsNullField(n.l) \/ IsNullField(n.r))
          THEN LET o == IF IsNullField(n.r) THEN n.l ELSE n.r IN Go(o, "O", Push([f |-> "null", op |-> n.op, o |-> o], c), c.reads)
          ELSE Go(n.l, "O", Push([f |-> "cmpL", op |-> n.op, r |-> n.r], c), c.reads))
    [] n.t = "range" -> Go(NField(n.f), "O", Push([f |-> "range", lo |-> n.lo, hi |-> n.hi], c), c.reads)
    [] n.t \in {"in", "arr"} -> Go(NField(n.f), "O", Push([f |-> "items", n |-> n], c), c.reads)
    [] n.t = "not" -> Go(n.l, "B", Push([f |-> "not"], c), c.reads)
    [] n.t = "logic" -> Go(n.l, "B", Push([f |-> "logic", op |-> n.op, r |-> n.r], c), c.reads)
    [] n.t = "field" -> ReadField(n.f, "B", c, m)
    [] n.t = "lit" -> (IF n.v.k = "bool" THEN Back(Ok(n.v.b), c.st, c.reads)
                       ELSE ReadField(ToText(n.v), "B", c, m))
    [] OTHER -> Back(Fail, c.st, c.reads)

GoA(n, c, m) ==
  CASE n.t = "field" -> ReadField(n.f, "A", c, m)
    [] n.t = "lit" -> Back(Ok(n.v), c.st, c.reads)
    [] n.t = "neg" -> Go(n.l, "A", Push([f |-> "neg"], c), c.reads)
    [] n.t = "arith" -> Go(n.l, "A", Push([f |-> "arithL", op |-> n.op, r |-> n.r], c), c.reads)
    [] n.t = "fn" -> Go(n.args[1], "A", Push([f |-> "args", n |-> n, i |-> 1, acc |-> << >>], c), c.reads)
    [] OTHER -> Back(Fail, c.st, c.reads)

\* an operand is arithmetic or a boolean expression
GoO(n, c, m) ==
  IF IsArithNode(n) THEN GoA(n, c, m)
  ELSE Go(n, "B", Push([f |-> "truth"], c), c.reads)

FinishCall(n, vs, m) ==
  IF n.g = "LEN" /\ Len(vs) = 1 /\ vs[1].k = "list" THEN Ok(VInt(NumOf(Len(vs[1].e)))) ELSE CallFn(n.g, Flatten(vs, 1), m)
FinishItems(n, x, acc) ==
  LET vs == Flatten(acc, 1) IN
  IF n.t = "in" THEN Member(x, vs, 1)
  ELSE IF Cardinality({TypeOf(vs[i]) : i \in 1..Len(vs)}) > 1 THEN Fail
  ELSE IF x.k \notin {"list", "arr"} THEN Fail
  ELSE ContainsOp(n.op, x.e, vs)

\* outcome r reaches frame f; st is the rest of the stack
Resume(f, r, st, reads, m) ==
  IF f.f = "null" THEN
    (LET missing == f.o.t = "field" /\ ~r.ok /\ r.e = "notfound" IN
     Back(IF r.ok \/ missing THEN Ok(missing = (f.op = "=")) ELSE r, st, reads))
  ELSE IF ~r.ok THEN Back(r, st, reads)
  ELSE CASE f.f = "cmpL" -> Go(f.r, "O", << [f |-> "cmpR", op |-> f.op, x |-> r.v] >> \o st, reads)
         [] f.f = "cmpR" -> Back(CompareOp(f.op, f.x, r.v), st, reads)
         [] f.f = "range" ->
              Back(LET lo == CompareOp(">=", r.v, f.lo) hi == CompareOp("<=", r.v, f.hi) IN
                   IF ~lo.ok THEN lo ELSE IF ~hi.ok THEN hi ELSE Ok(lo.v /\ hi.v), st, reads)
         [] f.f = "items" -> Go(f.n.args[1], "O", << [f |-> "item", n |-> f.n, i |-> 1, x |-> r.v, acc |-> << >>] >> \o st, reads)
         [] f.f = "item" ->
              (IF f.i = Len(f.n.args) THEN Back(FinishItems(f.n, f.x, Append(f.acc, r.v)), st, reads)
               ELSE Go(f.n.args[f.i + 1], "O", << [f EXCEPT !.i = f.i + 1, !.acc = Append(f.acc, r.v)] >> \o st, reads))
         [] f.f = "not" -> Back(Ok(~r.v), st, reads)
         [] f.f = "logic" -> (IF r.v = (f.op = "OR") THEN Back(r, st, reads) ELSE Go(f.r, "B", st, reads))
         [] f.f = "truth" -> Back(Ok(VBool(r.v)), st, reads)
         [] f.f = "neg" -> Back(Negate(r.v), st, reads)
         [] f.f = "arithL" -> Go(f.r, "A", << [f |-> "arithR", op |-> f.op, x |-> r.v] >> \o st, reads)
         [] f.f = "arithR" -> Back(Arith(f.op, f.x, r.v), st, reads)
         [] f.f = "args" ->
              (IF f.i = Len(f.n.args) THEN Back(FinishCall(f.n, Append(f.acc, r.v), m), st, reads)
               ELSE Go(f.n.args[f.i + 1], "A", << [f EXCEPT !.i = f.i + 1, !.acc = Append(f.acc, r.v)] >> \o st, reads))

Step(c, m) ==
  IF c.ctl = "go" THEN (CASE c.mode = "B" -> GoB(c.n, c, m) [] c.mode = "A" -> GoA(c.n, c, m) [] c.mode = "O" -> GoO(c.n, c, m))
  ELSE Resume(c.st[1], c.r, SubSeq(c.st, 2, Len(c.st)), c.reads, m)

RECURSIVE RunFrom(_, _)
RunFrom(c, m) == IF Halted(c) THEN c ELSE RunFrom(Step(c, m), m)
Run(n, mode, m) == RunFrom(Start(n, mode), m)
=============================================================================
