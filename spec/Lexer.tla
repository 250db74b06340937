-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The token language of BooleanExpression.g4: longest match, ties broken  *)
(* by rule order, white space skipped, any other character an error.       *)
(* A token is [ty, t]; ty is the name of the lexer rule.                   *)
(***************************************************************************)
EXTENDS Values

KeywordNames == << "IN", "TO", "AND", "OR", "NOT", "TRUE", "FALSE", "CONTAINS_ALL", "CONTAINS_ANY", "MIN", "MAX", "AVG",
                   "SUM", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED" >>
KeywordTable == [i \in 1..Len(KeywordNames) |-> [ty |-> KeywordNames[i], up |-> Codes(KeywordNames[i]), lo |-> Lower(Codes(KeywordNames[i]))]]
FunctionNames == {"MIN", "MAX", "AVG", "SUM", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED"}

KeywordMap == LET ups == {KeywordTable[i].up : i \in 1..Len(KeywordTable)} los == {KeywordTable[i].lo : i \in 1..Len(KeywordTable)} IN
   [w \in ups \cup los |-> KeywordTable[CHOOSE i \in 1..Len(KeywordTable) : KeywordTable[i].up = w \/ KeywordTable[i].lo = w].ty]
KeywordWords == DOMAIN KeywordMap

CommaC == 44

RECURSIVE FieldEnd(_, _)
\* last index of the maximal run of FIELD characters starting at i
FieldEnd(t, i) == IF i < Len(t) /\ IsFieldC(t[i + 1]) THEN FieldEnd(t, i + 1) ELSE i
RECURSIVE SpaceEnd(_, _)
SpaceEnd(t, i) == IF i < Len(t) /\ IsSpaceC(t[i + 1]) THEN SpaceEnd(t, i + 1) ELSE i

\* token type of a complete run of FIELD characters
WordType(w) ==
  IF w \in KeywordWords THEN KeywordMap[w]
  ELSE IF ~IsDigitC(w[1]) THEN "FIELD"
  ELSE IF \E i \in 1..Len(w) : ~IsDigitC(w[i]) /\ w[i] # 46 THEN "FIELD"
  ELSE LET ps == SplitAll(w, 46) n == Len(ps) IN
       IF \E i \in 1..n : ps[i] = << >> THEN "FIELD"
       ELSE IF n = 1 THEN "INTEGER"
       ELSE IF n = 2 THEN "DECIMAL"
       ELSE IF Len(ps[1]) = 1 THEN "APP_VERSION"
       ELSE "FIELD"

DateShape(t, i) == /\ i + 9 <= Len(t)
                   /\ DigitsAt(t, i, 4) /\ t[i + 4] = 45 /\ DigitsAt(t, i + 5, 2) /\ t[i + 7] = 45 /\ DigitsAt(t, i + 8, 2)
DateTimeShape(t, i) == /\ i + 18 <= Len(t) /\ DateShape(t, i)
                       /\ t[i + 10] = 32 /\ DigitsAt(t, i + 11, 2) /\ t[i + 13] = 58 /\ DigitsAt(t, i + 14, 2)
                       /\ t[i + 16] = 58 /\ DigitsAt(t, i + 17, 2)

Tok(ty, t, i, j) == [ty |-> ty, t |-> SubSeq(t, i, j)]
\* next token at i (which is not white space) as [ok, tok, nx]
NextToken(t, i) ==
  LET c == t[i]
      c2 == IF i < Len(t) THEN t[i + 1] ELSE 0
      one(ty) == [ok |-> TRUE, tok |-> Tok(ty, t, i, i), nx |-> i + 1]
      two(ty) == [ok |-> TRUE, tok |-> Tok(ty, t, i, i + 1), nx |-> i + 2]
      bad == [ok |-> FALSE]
  IN CASE IsFieldC(c) ->
            (LET j == FieldEnd(t, i) IN
             IF j = i + 3 /\ DateTimeShape(t, i) THEN [ok |-> TRUE, tok |-> Tok("DATETIME", t, i, i + 18), nx |-> i + 19]
             ELSE IF j = i + 3 /\ DateShape(t, i) THEN [ok |-> TRUE, tok |-> Tok("DATE", t, i, i + 9), nx |-> i + 10]
             ELSE LET w == SubSeq(t, i, j) IN [ok |-> TRUE, tok |-> [ty |-> WordType(w), t |-> w], nx |-> j + 1])
       [] c \in {34, 39} ->
            (LET j == IndexFrom(t, c, i + 1) IN IF j = 0 THEN bad ELSE [ok |-> TRUE, tok |-> Tok("WORD", t, i, j), nx |-> j + 1])
       [] c = 43 -> one("+") [] c = 45 -> one("-") [] c = 42 -> one("*") [] c = 47 -> one("/") [] c = 37 -> one("%")
       [] c = 94 -> one("^") [] c = 40 -> one("(") [] c = 41 -> one(")") [] c = CommaC -> one(",") [] c = 61 -> one("=")
       [] c = 33 -> (IF c2 = 61 THEN two("!=") ELSE bad)
       [] c = 62 -> (IF c2 = 61 THEN two(">=") ELSE one(">"))
       [] c = 60 -> (IF c2 = 61 THEN two("<=") ELSE one("<"))
       [] c = 38 -> (IF c2 = 38 THEN two("AND") ELSE bad)
       [] c = 124 -> (IF c2 = 124 THEN two("OR") ELSE bad)
       [] OTHER -> bad

EofToken == [ty |-> "EOF", t |-> << >>]
RECURSIVE LexFrom(_, _, _)
LexFrom(t, i, acc) ==
  IF i > Len(t) THEN [ok |-> TRUE, toks |-> Append(acc, EofToken)]
  ELSE IF IsSpaceC(t[i]) THEN LexFrom(t, SpaceEnd(t, i) + 1, acc)
  ELSE LET r == NextToken(t, i) IN IF r.ok THEN LexFrom(t, r.nx, Append(acc, r.tok)) ELSE [ok |-> FALSE]
Lex(t) == LexFrom(t, 1, << >>)
=============================================================================
