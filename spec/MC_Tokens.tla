------------------------------ MODULE MC_Tokens ------------------------------
(***************************************************************************)
(* Every sequence of up to four tokens, with and without a default field:  *)
(* what is an expression and what is not.  Replayed as parse calls, some   *)
(* also as evaluations.  MC_Tokens6 looks at longer sequences.             *)
(***************************************************************************)
EXTENDS Forms
VARIABLES chunk, bad

Tokens == << Codes("a"), Codes("2"), Codes("1.5"), Codes("'x'"), Codes("true"), Codes("1.2.3"), Codes("2024-02-29"), Codes("-"), Codes("+"), Codes("*"), Codes("="), Codes(">"),
             Codes("and"), Codes("or"), Codes("not"), Codes("in"), Codes("contains_any"), Codes("to"), Codes("min"), Codes("("), Codes(")"), Codes(",") >>
NT == Len(Tokens)

RECURSIVE Pow(_, _), SeqOf(_, _), Total(_), Sized(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
SeqOf(j, n) == IF n = 0 THEN << >> ELSE << Tokens[1 + (j % NT)] >> \o SeqOf(j \div NT, n - 1)
\* sequences of at most n tokens
Total(n) == IF n = 0 THEN 1 ELSE Pow(NT, n) + Total(n - 1)
Sized(j, n) == IF j < Pow(NT, n) THEN SeqOf(j, n) ELSE Sized(j - Pow(NT, n), n + 1)

MapData == << Entry(Codes("a"), VInt(NumOf(2))), Entry(Codes("d"), VBool(TRUE)) >>
Defaults == << << >>, Codes("d") >>
Toks(i) == Sized(i \div 2, 0)
Def(i) == Defaults[1 + (i % 2)]
TokenCount == 2 * Total(4)
TokenVectors(i) ==
  LET x == Words(Toks(i)) IN
  << Call("P", x, Def(i), MapData) >>
  \o (IF (i \div 2) % 7 = 0 THEN << Call("B", x, Def(i), MapData) >> ELSE IF i % 14 = 2 THEN << Call("A", x, << >>, MapData) >> ELSE << >>)

SplitWords(x) == SelectSeq(SplitAll(x, 32), LAMBDA w : w # << >>)
Rejected(p) == ~p.ok /\ p.e = "fail"
RECURSIVE Opens(_, _)
\* brackets opened and not closed, or a negative number where more are closed than were opened
Opens(ts, n) == IF ts = << >> THEN n ELSE IF n < 0 THEN n ELSE Opens(Tail(ts), IF Head(ts) = Codes("(") THEN n + 1 ELSE IF Head(ts) = Codes(")") THEN n - 1 ELSE n)
TokenLaws(ts, def) ==
  LET x == Words(ts) p == Parse(x, def) IN
  (IF p.ok => Parse(Paren(x), def) = p THEN {} ELSE {"brackets around the whole"})
  \cup (IF Parse(Join(ts, << 10, 32 >>, 1), def) = p THEN {} ELSE {"white space"})
  \cup (IF p.ok => Opens(ts, 0) = 0 THEN {} ELSE {"brackets pair up"})
  \cup (IF Opens(ts, 0) < 0 => Rejected(p) THEN {} ELSE {"a bracket that closes nothing"})
  \cup (IF def = << >> /\ Len(ts) > 0 /\ ts[1] \in {Codes("+"), Codes("*"), Codes("="), Codes(">"), Codes("and"), Codes("or"), Codes(")"), Codes(","), Codes("in"), Codes("to")}
        => Rejected(p) THEN {} ELSE {"no expression starts with an infix"})
  \cup (IF def # << >> /\ Parse(x, << >>).ok => p = Parse(x, << >>) THEN {} ELSE {"the default field completes, it never changes"})
TokenBroken(i) == TokenLaws(Toks(i), Def(i))

INSTANCE Grid WITH Count <- TokenCount, Vectors <- TokenVectors, Broken <- TokenBroken
=============================================================================
