----------------------------- MODULE MC_Tokens6 -----------------------------
(***************************************************************************)
(* Sequences of five to seven tokens that mostly look like expressions:    *)
(* what follows an operand is chosen among infix operators, list openers   *)
(* and closing tokens, what follows anything else among operands and       *)
(* prefixes, with some odd ones in both lists.  A sample, with the laws of *)
(* MC_Tokens.                                                              *)
(***************************************************************************)
EXTENDS Forms
VARIABLES chunk, bad
T == INSTANCE MC_Tokens

Before == << Codes("a"), Codes("2"), Codes("b.c"), Codes("'x'"), Codes("1.5"), Codes("("), Codes("("), Codes("-"), Codes("not"), Codes("min ("), Codes("len ("), Codes("a"),
             Codes("true"), Codes("1.2.3"), Codes(")"), Codes("and") >>
After == << Codes("="), Codes("!="), Codes(">"), Codes("+"), Codes("-"), Codes("*"), Codes("%"), Codes("^"), Codes("and"), Codes("or"), Codes(")"), Codes(")"), Codes("in ("),
            Codes("not in ("), Codes("2 to 3"), Codes(",") >>
Operands == {Codes("a"), Codes("2"), Codes("b.c"), Codes("'x'"), Codes("1.5"), Codes("true"), Codes("1.2.3"), Codes(")"), Codes("2 to 3")}
RECURSIVE Chain(_, _, _)
Chain(j, n, ts) == IF n = 0 THEN ts
                   ELSE LET l == IF ts # << >> /\ ts[Len(ts)] \in Operands THEN After ELSE Before IN Chain(j \div 16, n - 1, Append(ts, l[1 + (j % 16)]))
\* the digits are stirred, so that a sample meets all of them
LongToks(i) == Chain(((i % 46337) * 46327 + (i \div 46337) * 7919) % 1073741789, 5 + (i % 3), << >>)
LongDef(i) == IF i % 5 = 0 THEN Codes("d") ELSE << >>
LongCount == 2000000
LongVectors(i) == << Call("P", Words(LongToks(i)), LongDef(i), << >>) >>
\* the laws count single tokens
Single(ts) == T!SplitWords(Words(ts))
LongBroken(i) == T!TokenLaws(Single(LongToks(i)), LongDef(i))
INSTANCE Grid WITH Count <- LongCount, Vectors <- LongVectors, Broken <- LongBroken
=============================================================================
