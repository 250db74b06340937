------------------------------ MODULE MC_Chars ------------------------------
(***************************************************************************)
(* Every text of up to four characters, on its own, as an operand and      *)
(* between quotes: what the tokens are, what is an error, and what a       *)
(* quoted text stands for.                                                 *)
(***************************************************************************)
EXTENDS Forms
VARIABLES chunk, bad

Alphabet == << 97, 84, 48, 53, 46, 95, 45, 32, 10, 39, 34, 61, 33, 62, 60, 38, 124, 40, 41, 44, 35, 58, 233, 11 >>
NA == Len(Alphabet)
RECURSIVE Pow(_, _), CharsOf(_, _), Total(_), Sized(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
CharsOf(j, n) == IF n = 0 THEN << >> ELSE << Alphabet[1 + (j % NA)] >> \o CharsOf(j \div NA, n - 1)
Total(n) == IF n = 0 THEN 1 ELSE Pow(NA, n) + Total(n - 1)
Sized(j, n) == IF j < Pow(NA, n) THEN CharsOf(j, n) ELSE Sized(j - Pow(NA, n), n + 1)

Chars(i) == Sized(i \div 3, 0)
InContext(s, c) == CASE c = 0 -> s [] c = 1 -> Codes("f = ") \o s [] c = 2 -> << 39 >> \o s \o << 39 >>
Text1(i) == InContext(Chars(i), i % 3)
Def(i) == IF (i \div 3) % 4 = 0 THEN Codes("d") ELSE << >>
CharCount == 3 * Total(4)
CharVectors(i) ==
  << Call("P", Text1(i), Def(i), << >>) >>
  \o (IF i % 3 = 1 THEN << Call("B", Text1(i), Def(i), << Entry(Codes("f"), VStr(Chars(i))), Entry(Codes("d"), VBool(TRUE)), Entry(Codes("a"), VInt(NumOf(5))) >>) >> ELSE << >>)

RECURSIVE Glued(_, _, _)
Glued(toks, sep, k) == IF k >= Len(toks) THEN << >> ELSE (IF k = 1 THEN << >> ELSE sep) \o toks[k].t \o Glued(toks, sep, k + 1)
NoSpace(t) == SelectSeq(t, LAMBDA c : ~IsSpaceC(c))
CharBroken(i) ==
  LET x == Text1(i) l == Lex(x) s == Chars(i) IN
  (IF l.ok => Lex(Glued(l.toks, << 32 >>, 1)) = l /\ Lex(Glued(l.toks, << 13, 10 >>, 1)) = l THEN {} ELSE {"white space between tokens"})
  \cup (IF l.ok => NoSpace(Glued(l.toks, << >>, 1)) = NoSpace(x) THEN {} ELSE {"nothing is lost or added"})
  \cup (IF i % 3 = 2 /\ \A k \in 1..Len(s) : s[k] # 39 THEN (IF Parse(x, << >>) = Ok(NLit("STRING", VStr(s))) THEN {} ELSE {"a quoted text is itself"}) ELSE {})
  \cup (IF i % 3 = 0 /\ s # << >> /\ \A k \in 1..Len(s) : IsFieldC(s[k])
        THEN (IF l.ok /\ Len(l.toks) = 2 THEN {} ELSE {"a run of name characters is one token"}) ELSE {})

INSTANCE Grid WITH Count <- CharCount, Vectors <- CharVectors, Broken <- CharBroken
=============================================================================
