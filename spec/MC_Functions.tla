---------------------------- MODULE MC_Functions ----------------------------
(***************************************************************************)
(* Aggregates over every sequence of up to three values of a small domain, *)
(* LEN, INT and DAYS_ELAPSED over the whole catalogue, given as arguments, *)
(* as one collection, or both.                                             *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

Small == << I("1"), I("2"), I("-3"), I("7"), I("2147483647"), L("2"), L("9223372036854775807"), L("-9223372036854775808"), D("2.0"), D("0.5"), D("1.25"), D("9007199254740993.5"),
            F("0.5"), S("5") >>
NS == Len(Small)
Aggregates == << "MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE" >>
SeqCount == NS + NS * NS + NS * NS * NS
SeqOf(i) ==
  IF i < NS THEN << Small[1 + i] >>
  ELSE IF i < NS + NS * NS THEN LET j == i - NS IN << Small[1 + Digit(j, 1, NS)], Small[1 + Digit(j, NS, NS)] >>
  ELSE LET j == i - NS - NS * NS IN << Small[1 + Digit(j, 1, NS)], Small[1 + Digit(j, NS, NS)], Small[1 + Digit(j, NS * NS, NS)] >>
NV == Len(Values)
Single == << "LEN", "INT", "DAYS_ELAPSED", "MIN", "MODE", "AVG", "MEDIAN" >>

Names == << Codes("x"), Codes("y"), Codes("z") >>
Args(vs, f) ==  \* f = 0: one collection, 1: fields, 2: literals where there are any, 3: the first, then a collection
  LET es == [k \in 1..Len(vs) |-> Entry(Names[k], vs[k])]
      all == Append(es, Entry(Codes("all"), ListV(vs)))
  IN IF f = 0 THEN [x |-> << Codes("all") >>, d |-> all]
     ELSE IF f = 3 /\ Len(vs) > 1 THEN [x |-> << Names[1], Codes("rest") >>, d |-> Append(es, Entry(Codes("rest"), ListV(SubSeq(vs, 2, Len(vs)))))]
     ELSE [x |-> [k \in 1..Len(vs) |-> Operand(Names[k], vs[k], f = 2)], d |-> es]
FnCall(g, vs, f) == LET a == Args(vs, f) IN Call("A", (IF f % 2 = 0 THEN Codes(g) ELSE Lower(Codes(g))) \o ListText(a.x), << >>, a.d)

FnCount == SeqCount + NV
FnVectors(i) ==
  IF i < SeqCount THEN [k \in 1..Len(Aggregates) |-> FnCall(Aggregates[k], SeqOf(i), (i + k) % 4)]
  ELSE LET v == Values[1 + (i - SeqCount)] IN
       [k \in 1..(2 * Len(Single)) |-> FnCall(Single[1 + (k - 1) \div 2], << v >>, 1 + (k % 2))]

M0 == [td |-> 0]
Fn(g, vs) == CallFn(g, vs, M0)
Val(a) == DecOf(a.v)
Swap(vs) == [k \in 1..Len(vs) |-> vs[Len(vs) + 1 - k]]
Turn(vs) == [k \in 1..Len(vs) |-> vs[1 + (k % Len(vs))]]
SameOut(a, b) == a.ok = b.ok /\ (a.ok => DCmp(Val(a), Val(b)) = 0)
AllNum(vs) == \A k \in 1..Len(vs) : Usable(vs[k]) /\ IsNumber(TypeOf(vs[k]))
RECURSIVE ExactSum(_, _)
ExactSum(vs, k) == IF k > Len(vs) THEN DecOfNum(Num0) ELSE DAdd(DecOf(vs[k]), ExactSum(vs, k + 1))
Fits(d) == ~DIsIntegral(d) \/ FitsLong(DTrunc(d))
FnBroken(i) ==
  IF i >= SeqCount THEN {}
  ELSE LET vs == SeqOf(i) n == Len(vs) mn == Fn("MIN", vs) mx == Fn("MAX", vs) sm == Fn("SUM", vs) av == Fn("AVG", vs) md == Fn("MEDIAN", vs) IN
       IF ~AllNum(vs) THEN (IF \A k \in 1..Len(Aggregates) : ~Fn(Aggregates[k], vs).ok THEN {} ELSE {"only numbers are aggregated"})
       ELSE (IF \A g \in {"MIN", "MAX", "SUM", "AVG", "MEDIAN"} : SameOut(Fn(g, vs), Fn(g, Swap(vs))) /\ SameOut(Fn(g, vs), Fn(g, Turn(vs))) THEN {} ELSE {"the order of the arguments"})
            \cup (IF \A k \in 1..n : DCmp(Val(mn), DecOf(vs[k])) <= 0 /\ DCmp(Val(mx), DecOf(vs[k])) >= 0 THEN {} ELSE {"bounds"})
            \cup (IF (\E k \in 1..n : DCmp(Val(mn), DecOf(vs[k])) = 0) /\ (\E k \in 1..n : DCmp(Val(mx), DecOf(vs[k])) = 0) THEN {} ELSE {"an extreme is one of the arguments"})
            \cup (IF sm.ok => DCmp(Val(sm), ExactSum(vs, 1)) = 0 THEN {} ELSE {"the sum is exact"})
            \cup (IF sm.ok \/ ~Fits(ExactSum(vs, 1)) THEN {} ELSE {"a sum fails only where it does not fit"})
            \cup (IF Fn("MEAN", vs) = av /\ av.ok THEN {} ELSE {"AVG is MEAN"})
            \cup (IF md.ok /\ DCmp(DMul(Val(md), DecOfNum(NumOf(1))), DSub(Val(mn), MkDec(NumOf(1), 1))) >= 0 /\ DCmp(Val(md), DAdd(Val(mx), MkDec(NumOf(1), 1))) <= 0 THEN {} ELSE {"the median lies between"})
            \cup (IF n # 3 \/ (\E k \in 1..3 : DCmp(DecOf(vs[k]), Val(md)) = 0) THEN {} ELSE {"the median of three is one of them"})
            \cup (IF LET mo == Fn("MODE", vs) Times(d) == Cardinality({k \in 1..n : DCmp(d, DecOf(vs[k])) = 0}) IN
                      mo.ok /\ Times(Val(mo)) > 0 /\ \A k \in 1..n : Times(DecOf(vs[k])) <= Times(Val(mo)) THEN {} ELSE {"no value occurs more often than the mode"})
            \cup (IF \A g \in {"MIN", "MAX", "AVG", "MEDIAN", "MODE"} : SameOut(Fn(g, vs), Fn(g, [k \in 1..n |-> VDec(DecOf(vs[k]))])) THEN {} ELSE {"only the value of a number counts"})
            \cup (IF \A k \in 1..Len(Aggregates) : LET o == Fn(Aggregates[k], vs) IN o.ok => ((o.v.k \in {"int", "long"}) <=> (DIsIntegral(Val(o)) /\ FitsLong(DTrunc(Val(o))))) THEN {} ELSE {"a result without fraction is whole"})

INSTANCE Grid WITH Count <- FnCount, Vectors <- FnVectors, Broken <- FnBroken
=============================================================================
