----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* Two callers with one call each (every pair of a pool of calls, with and *)
(* without a cache, in every interleaving), and one caller with up to      *)
(* three calls (every sequence of the pool).                               *)
(***************************************************************************)
EXTENDS Forms
CONSTANTS Mode, Fault, Export
VARIABLES scen, cache, th, slot, sched

D1 == << Entry(Codes("a"), VInt(NumOf(1))), Entry(Codes("b"), VInt(NumOf(7))), Entry(Codes("t"), VBool(TRUE)), Entry(Codes("s"), VStr(Codes("x"))),
         Entry(Codes("l"), [k |-> "list", e |-> << VInt(NumOf(1)), VInt(NumOf(2)) >>, t |-> Codes("[1, 2]")]) >>
D2 == << Entry(Codes("a"), VInt(NumOf(9))), Entry(Codes("b"), VDec(MkDec(NumOf(25), 1))), Entry(Codes("t"), VBool(FALSE)), Entry(Codes("s"), VStr(Codes("y"))),
         Entry(Codes("l"), [k |-> "list", e |-> << VInt(NumOf(5)) >>, t |-> Codes("[5]")]) >>
D3 == << Entry(Codes("b"), VInt(NumOf(1))), Entry(Codes("a_b"), VInt(NumOf(7))) >>
No == << >>
Pool == << Call("B", Codes("a > 5 or t"), No, D1), Call("B", Codes("a > 5 or t"), No, D2), Call("B", Codes("= 7"), Codes("b"), D1), Call("B", Codes("= 7"), Codes("a"), D1),
           Call("B", Codes("= b"), Codes("a_b"), D3), Call("B", Codes("= b_a"), Codes("b"), D3), Call("A", Codes("a + b * 2"), No, D1), Call("A", Codes("a + b * 2"), No, D2),
           Call("B", Codes("a in (1, b)"), No, D2), Call("B", Codes("l contains_any (1, 3)"), No, D1), Call("B", Codes("l contains_any (1, 3)"), No, D2),
           Call("A", Codes("sum(l, a)"), No, D1), Call("A", Codes("sum(l, a)"), No, D2), Call("B", Codes("zz = 1"), No, D1), Call("B", Codes("a = = 1"), No, D1),
           Call("B", Codes("Aa = BB"), No, << Entry(Codes("Aa"), VInt(NumOf(1))), Entry(Codes("BB"), VInt(NumOf(1))) >>),
           Call("B", Codes("BB = Aa"), No, << Entry(Codes("Aa"), VInt(NumOf(1))), Entry(Codes("BB"), VInt(NumOf(2))) >>),
           Call("P", Codes("a > 5 or t"), No, No), Call("P", Codes("= 7"), Codes("a"), No), Call("A", Codes("min(a, b) - len(s)"), No, D1), Call("A", Codes("s + a"), No, D2),
           Call("B", Codes("not t and s != 'x'"), No, D2), Call("B", Codes("a 1 to 5"), No, D1), Call("B", Codes("zz = null and a < b"), No, D1) >>
NP == Len(Pool)
Caps == << -1, 0, 1, 100 >>
P(k) == Pool[1 + (k % NP)]
Theirs(s, t) == IF Mode = "pairs" THEN << P(IF t = 0 THEN s \div 4 ELSE s \div (4 * NP)) >>
                ELSE << P(s \div 4), P(s \div (4 * NP)), P(s \div (4 * NP * NP)) >>
Cap(s) == Caps[1 + (s % 4)]
Count == IF Mode = "pairs" THEN 4 * NP * NP ELSE 4 * NP * NP * NP
Who == IF Mode = "pairs" THEN {0, 1} ELSE {0}

INSTANCE Session WITH Callers <- Who, ScenarioCount <- Count, CallsOf <- Theirs, CapacityOf <- Cap, Flaw <- Fault, Keep <- Export
=============================================================================
