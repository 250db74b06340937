------------------------------ MODULE MC_Kinds ------------------------------
(***************************************************************************)
(* Subjects of every kind in every position: what is no boolean never      *)
(* decides anything, and what is no number is never calculated with.       *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

\* << what it is, how it is written >>; "name" is a text in boolean position, which names a field
Subjects == << << "bool", "true" >>, << "bool", "bt" >>, << "bool", "bf" >>, << "bool", "i = 1" >>, << "bool", "i > 2" >>, << "bool", "bt and bf" >>, << "bool", "bt or bf" >>, << "bool", "not bf" >>,
               << "bool", "i in (1, 2)" >>, << "bool", "i not in (1)" >>, << "bool", "l contains_any (1)" >>, << "bool", "ar contains_all (7)" >>, << "bool", "i 0 to 5" >>, << "bool", "u = null" >>,
               << "bool", "(bt)" >>, << "bool", "nest.b" >>,
               << "num", "1" >>, << "num", "0" >>, << "num", "2.5" >>, << "num", "5000000000" >>, << "num", "i" >>, << "num", "z" >>, << "num", "d" >>, << "num", "lg" >>, << "num", "fl" >>, << "num", "i + 1" >>, << "num", "-i" >>,
               << "num", "min(i, 2)" >>, << "num", "len(l)" >>, << "num", "i * 2.5" >>, << "num", "int(d)" >>, << "num", "days_elapsed(2024-01-01)" >>, << "num", "nest.n" >>,
               << "text", "s" >>, << "text", "st" >>, << "text", "sn" >>, << "text", "s + 'x'" >>, << "text", "'x' + 1" >>, << "text", "se" >>,
               << "name", "'w'" >>, << "name", "'bt'" >>, << "name", "'i'" >>, << "name", "'true'" >>, << "name", "'st'" >>, << "name", "'nest.b'" >>, << "name", "''" >>, << "name", "'5'" >>,
               << "ver", "1.2.3" >>, << "ver", "v" >>, << "ver", "vn" >>, << "other", "on" >>, << "other", "ob" >>, << "date", "2024-01-01" >>, << "date", "da" >>, << "date", "sd" >>, << "dt", "2024-01-01 10:00:00" >>, << "dt", "ti" >>,
               << "coll", "l" >>, << "coll", "e" >>, << "coll", "lb" >>, << "coll", "ar" >>, << "other", "nest" >>, << "other", "o" >>, << "gone", "u" >>, << "gone", "nest.u" >> >>
NSubjects == Len(Subjects)
Data == << Entry(Codes("bt"), VBool(TRUE)), Entry(Codes("bf"), VBool(FALSE)), Entry(Codes("i"), I("1")), Entry(Codes("z"), I("0")), Entry(Codes("d"), D("1.5")), Entry(Codes("lg"), L("5")), Entry(Codes("fl"), F("1.5")),
           Entry(Codes("s"), S("abc")), Entry(Codes("st"), S("true")), Entry(Codes("sn"), S("1")), Entry(Codes("se"), S("")), Entry(Codes("v"), V("1.2.3")), Entry(Codes("da"), VDate(2024, 1, 1)), Entry(Codes("sd"), S("2024-01-01")),
           Entry(Codes("ti"), VDt(2024, 1, 1, 10, 0, 0)), Entry(Codes("l"), ListV(<< I("1"), I("2") >>)), Entry(Codes("e"), ListV(<< >>)), Entry(Codes("lb"), ListV(<< VBool(TRUE) >>)),
           Entry(Codes("ar"), ArrV(<< I("7") >>)), Entry(Codes("nest"), MapV(<< Entry(Codes("b"), VBool(TRUE)), Entry(Codes("n"), I("4")) >>)), Entry(Codes("vn"), V("5")), Entry(Codes("on"), [k |-> "oth", t |-> Codes("5")]), Entry(Codes("ob"), [k |-> "oth", t |-> Codes("true")]), Entry(Codes("o"), [k |-> "oth", t |-> Codes("MONDAY")]) >>
M0 == [k |-> "map", e |-> Data, t |-> << >>, td |-> 739900]

\* << evaluator, text with the subject at $, what the position asks for >>
Places == << << "B", "$", "bool" >>, << "B", "not ($)", "bool" >>, << "B", "not $", "open" >>, << "B", "($) and bt", "bool" >>, << "B", "($) or bf", "bool" >>, << "B", "bt and ($)", "bool" >>, << "B", "bf or ($)", "bool" >>,
             << "B", "bf and ($)", "skip" >>, << "B", "bt or ($)", "skip" >>, << "B", "not (bt and ($))", "bool" >>, << "B", "(($) and bt) or bt", "bool" >>, << "B", "(bt and ($)) and bt", "bool" >>,
             << "B", "not (not ($))", "bool" >>, << "B", "($) and ($)", "bool" >>, << "B", "($) = true", "open" >>, << "B", "true != ($)", "open" >>, << "B", "($) > true", "never" >>, << "B", "i in (($), 1)", "open" >>,
             << "B", "l contains_any (($))", "open" >>, << "B", "lb contains_all (($))", "open" >>, << "B", "(1 + ($)) > 0", "open" >>, << "B", "min(($), 1)", "never" >>,
             << "A", "$", "value" >>, << "A", "($)", "value" >>, << "A", "-($)", "num" >>, << "A", "($) - 1", "num" >>, << "A", "1 - ($)", "num" >>, << "A", "($) * 2", "num" >>, << "A", "2 * ($)", "num" >>, << "A", "($) / 2", "num" >>,
             << "A", "0 / ($)", "open" >>, << "A", "($) % 2", "open" >>, << "A", "7 % ($)", "open" >>, << "A", "($) ^ 2", "open" >>, << "A", "2 ^ ($)", "open" >>, << "A", "($) + 1", "plus" >>, << "A", "1.5 + ($)", "plus" >>,
             << "A", "min(($))", "list" >>, << "A", "max(1, ($))", "list" >>, << "A", "sum(($), ($))", "list" >>, << "A", "avg(($), 2)", "list" >>, << "A", "median(2, ($), 1)", "list" >>, << "A", "mode(($))", "list" >>,
             << "A", "mean(($))", "list" >>, << "A", "int(($))", "open" >>, << "A", "len(($))", "open" >>, << "A", "days_elapsed(($))", "open" >>, << "A", "-(-($))", "num" >>, << "A", "($) + da", "never" >> >>
NP == Len(Places)
RECURSIVE Fill(_, _, _)
Fill(t, p, i) == IF i > Len(t) THEN << >> ELSE (IF t[i] = 36 THEN p ELSE << t[i] >>) \o Fill(t, p, i + 1)
Sub(i) == Subjects[1 + Digit(i, 1, NSubjects)]
Pl(i) == Places[1 + Digit(i, NSubjects, NP)]
\* where one position is within another: the second place around the first
Around(i) == Digit(i, NSubjects * NP, NP + 1)
Inner(i) == Fill(Codes(Pl(i)[2]), Codes(Sub(i)[2]), 1)
Text1(i) == IF Around(i) = 0 THEN Inner(i) ELSE Fill(Codes(Places[Around(i)][2]), Inner(i), 1)
Api(i) == IF Around(i) = 0 THEN Pl(i)[1] ELSE Places[Around(i)][1]
\* VP_PICK: every subject in every position, or every position within every other too
KindsCount == NSubjects * NP * (IF IOEnv.VP_PICK = "plain" THEN 1 ELSE NP + 1)
KindsVectors(i) == << Call(Api(i), Text1(i), << >>, Data) >>

Out(i) == LET p == Parse(Text1(i), << >>) IN IF ~p.ok THEN p ELSE IF Api(i) = "B" THEN EvalB(p.v, M0) ELSE EvalA(p.v, M0)
KindsBroken(i) ==
  LET o == Out(i) kd == Sub(i)[1] want == Pl(i)[3] IN
  IF Around(i) # 0 THEN (IF o.ok => (IF Api(i) = "B" THEN o.v \in BOOLEAN ELSE o.v.k # "null") THEN {} ELSE {"a boolean evaluation gives a boolean, an arithmetic one a value"})
  ELSE (IF want = "bool" /\ kd \notin {"name", "bool"} => ~o.ok THEN {} ELSE {"what is no boolean decides nothing"})
       \cup (IF want = "bool" /\ kd = "bool" => o.ok THEN {} ELSE {"booleans do"})
       \cup (IF want = "skip" => o.ok THEN {} ELSE {"skipped operands may be anything"})
       \cup (IF want = "never" => ~o.ok THEN {} ELSE {"never an answer"})
       \cup (IF want \in {"num", "list", "plus"} /\ kd = "num" => o.ok THEN {} ELSE {"numbers are calculated with"})
       \cup (IF want = "num" /\ kd # "num" => ~o.ok THEN {} ELSE {"only numbers are"})
       \cup (IF want = "list" /\ kd \notin {"num", "coll"} => ~o.ok THEN {} ELSE {"only numbers are aggregated"})
       \cup (IF Api(i) = "A" /\ o.ok => kd \notin {"gone"} /\ (kd # "bool" \/ Sub(i)[2] \in {"true", "bt", "bf", "(bt)", "nest.b"}) THEN {} ELSE {"a test has no value"})
       \cup (IF want = "plus" /\ o.ok /\ kd # "num" => o.v.k = "str" THEN {} ELSE {"+ joins texts"})

INSTANCE Grid WITH Count <- KindsCount, Vectors <- KindsVectors, Broken <- KindsBroken
=============================================================================
