------------------------------ MODULE MC_Paths ------------------------------
(***************************************************************************)
(* References of one to six segments over data in which the segments are   *)
(* spread over nested maps in every way: each map key holds one or several *)
(* of them, joined by dots.  A reference is found only where every segment *)
(* is a key of its own; whatever is stored under joined keys, or inside    *)
(* something that is no map, is something else.                            *)
(***************************************************************************)
EXTENDS Domain
VARIABLES chunk, bad

RECURSIVE Put(_, _, _)
\* the entries es with v below the keys
Put(es, keys, v) ==
  LET at == {k \in 1..Len(es) : es[k].key = keys[1]} IN
  IF Len(keys) = 1 THEN (IF at = {} THEN Append(es, Entry(keys[1], v)) ELSE es)
  ELSE IF at = {} THEN Append(es, Entry(keys[1], MapV(Put(<< >>, Tail(keys), v))))
  ELSE LET k == CHOOSE q \in at : TRUE IN
       IF es[k].v.k = "map" THEN [es EXCEPT ![k] = Entry(keys[1], MapV(Put(es[k].v.e, Tail(keys), v)))] ELSE es

Names == << << "a", "b", "c", "d", "e", "f" >>, << "a", "a", "a", "a", "a", "a" >>, << "x1", "x", "_", "x1", "y", "x" >> >>
Two(k) == 2 ^ k
\* bit k of c: segment k and the next one are joined in one key
Joined(c, k) == (c \div Two(k - 1)) % 2 = 1
RECURSIVE Keys(_, _, _)
Keys(ss, c, k) ==
  IF k > Len(ss) THEN << >>
  ELSE LET rest == Keys(ss, c, k + 1) IN
       IF k < Len(ss) /\ Joined(c, k) THEN << ss[k] \o << 46 >> \o rest[1] >> \o Tail(rest) ELSE << ss[k] >> \o rest

\* family 0: two ways of spreading the segments; family 1: something in the way at one level
PerNaming == 6 * 32 * 32
PathsCount == 4 * PerNaming
Family(i) == IF i < 3 * PerNaming THEN 0 ELSE 1
N6(i) == 1 + Digit(i, 1, 6)
C1(i) == Digit(i, 6, 32)
C2(i) == Digit(i, 6 * 32, 32)
Naming(i) == IF Family(i) = 0 THEN 1 + (i \div PerNaming) ELSE 1 + (Digit(i, 6 * 32, 32) % 3)
Segments(i) == [k \in 1..N6(i) |-> Codes(Names[Naming(i)][k])]
Depth(i) == 1 + (C1(i) % 5)
Blocks(rest) == << VNull, I("5"), S("b"), ListV(<< MapV(Put(<< >>, rest, I("5"))) >>), MapV(<< >>), VBool(TRUE), [k |-> "oth", t |-> Codes("Optional.empty")], ListV(<< >>) >>
Real(i) == IF Family(i) = 0 THEN C1(i) < Two(N6(i) - 1) /\ C2(i) < Two(N6(i) - 1) ELSE Depth(i) < N6(i) /\ C1(i) \div 5 < 6 /\ C2(i) < 24
Data(i) ==
  LET ss == Segments(i) more == << Entry(Codes("q"), I("5")) >> IN
  IF Family(i) = 0 THEN Put(Put(more, Keys(ss, C1(i), 1), I("5")), Keys(ss, C2(i), 1), I("7"))
  ELSE Put(more, SubSeq(ss, 1, Depth(i)), Blocks(SubSeq(ss, Depth(i) + 1, N6(i)))[1 + (C2(i) % 8)])
Path(i) == Join(Segments(i), << 46 >>, 1)

Uses == << << "B", " = 5" >>, << "A", "" >>, << "B", " = null" >>, << "B", " in (5, 6)" >>, << "B", " != 7" >>, << "A", " + 1" >>, << "B", " 1 to 9" >>, << "B", " contains_any (5)" >>,
           << "B", " > q" >>, << "B", " not in (7)" >>, << "B", " != null" >>, << "B", "" >> >>
Calls == << << "A", "sum(", ", 1)" >>, << "B", "q = ", "" >>, << "B", "q in (1, ", ")" >>, << "B", "true and 5 = ", "" >>, << "A", "len(", ")" >>, << "B", "not ", "" >>, << "B", "q = (1 + ", ")" >> >>
PathsVectors(i) ==
  IF ~Real(i) THEN << >>
  ELSE LET p == Path(i) IN
       [k \in 1..4 |-> LET u == Uses[1 + ((i + 3 * k) % Len(Uses))] IN Call(u[1], p \o Codes(u[2]), << >>, Data(i))]
       \o [k \in 1..2 |-> LET u == Calls[1 + ((i + 3 * k + (i \div 6)) % Len(Calls))] IN Call(u[1], Codes(u[2]) \o p \o Codes(u[3]), << >>, Data(i))]
MapAt(i) == [k |-> "map", e |-> Data(i), t |-> << >>, td |-> 0]
PathsBroken(i) ==
  IF ~Real(i) THEN {}
  ELSE LET l == Lookup(Path(i), MapAt(i)) want == IF Family(i) = 1 THEN << >> ELSE IF C1(i) = 0 THEN << I("5") >> ELSE IF C2(i) = 0 THEN << I("7") >> ELSE << >> IN
       IF (want = << >> /\ ~l.ok) \/ (want # << >> /\ l.ok /\ l.v = want[1]) THEN {} ELSE {"found where every segment is a key of its own, and nowhere else"}

INSTANCE Grid WITH Count <- PathsCount, Vectors <- PathsVectors, Broken <- PathsBroken
=============================================================================
