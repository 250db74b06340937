------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The expression grammar of BooleanExpression.g4 as a precedence climbing *)
(* parser, together with the mapping of parse trees to Node trees          *)
(* (BooleanFilterListener).  Tree nodes:                                   *)
(*   field(f) lit(ty,v) neg(l) arith(op,l,r) fn(g,args) cmp(op,l,r,dt)     *)
(*   not(l) logic(op,l,r) in(f,args) arr(op,f,args) range(f,lo,hi)         *)
(***************************************************************************)
EXTENDS Lexer

Comparators == {"=", "!=", ">", ">=", "<", "<="}
ArithOps == {"+", "-", "*", "/", "%", "^"}
\* binding strength of a binary operator, 0 for any other token
Level(ty) == CASE ty \in Comparators -> 14 [] ty = "^" -> 12 [] ty = "/" -> 11 [] ty = "*" -> 10 [] ty = "%" -> 9
               [] ty = "+" -> 8 [] ty = "-" -> 7 [] ty \in {"AND", "OR"} -> 5 [] OTHER -> 0
NotOperandLevel == 15
MinusOperandLevel == 13

NField(f) == [t |-> "field", f |-> f]
NLit(ty, v) == [t |-> "lit", ty |-> ty, v |-> v]
IsNullField(n) == n.t = "field" /\ Lower(n.f) = NullText
IsBlank(t) == \A i \in 1..Len(t) : IsSpaceC(t[i]) \/ t[i] \in {11, 28, 29, 30, 31}

\* a parse result: Ok node n up to position p; cl is "types", "logic" or "other" (which grammar alternative it is);
\* lt is the data type its own token gives a comparison (only meaningful for "types")
Res(n, p, cl) == [ok |-> TRUE, n |-> n, p |-> p, cl |-> cl, lt |-> "STRING"]
ResTyped(n, p, lt) == [ok |-> TRUE, n |-> n, p |-> p, cl |-> "types", lt |-> lt]

\* version literal whose first component has several digits (lexed as FIELD)
IsLongVersion(w) == LET ps == SplitAll(w, 46) IN Len(ps) >= 3 /\ \A i \in 1..Len(ps) : ps[i] # << >> /\ AllDigits(ps[i])

TokenType(tok) ==
  CASE tok.ty = "DECIMAL" -> "DECIMAL"
    [] tok.ty = "INTEGER" -> (IF FitsInt(MkNum(1, NOfDigits(tok.t))) THEN "INTEGER" ELSE "LONG")
    [] tok.ty = "APP_VERSION" -> "VERSION"
    [] tok.ty = "FIELD" -> (IF IsDigitC(tok.t[1]) /\ IsLongVersion(tok.t) THEN "VERSION" ELSE "STRING")
    [] tok.ty \in {"TRUE", "FALSE"} -> "BOOLEAN"
    [] tok.ty = "DATE" -> "DATE"
    [] tok.ty = "DATETIME" -> "DATETIME"
    [] OTHER -> "STRING"

\* value of a literal token: Ok(value) or Fail (an integer beyond the long range, a day or time that does not exist)
LiteralValue(tok) ==
  LET ty == TokenType(tok) IN
  CASE ty = "INTEGER" -> Ok(VInt(MkNum(1, NOfDigits(tok.t))))
    [] ty = "LONG" -> (LET n == MkNum(1, NOfDigits(tok.t)) IN IF FitsLong(n) THEN Ok(VLong(n)) ELSE Fail)
    [] ty = "DECIMAL" -> Ok(VDec(DecOfText(tok.t).d))
    [] ty = "VERSION" -> Ok(VVer(tok.t))
    [] ty = "BOOLEAN" -> Ok(VBool(tok.ty = "TRUE"))
    [] ty = "DATE" -> (LET d == DateOfText(tok.t) IN IF d.ok THEN Ok(d.v) ELSE Fail)
    [] ty = "DATETIME" -> (LET d == DateTimeOfText(tok.t) IN IF d.ok THEN Ok(d.v) ELSE Fail)
    [] OTHER -> Ok(VStr(SubSeq(tok.t, 2, Len(tok.t) - 1)))

LiteralTokens == {"INTEGER", "DECIMAL", "APP_VERSION", "TRUE", "FALSE", "WORD", "DATE", "DATETIME"}

\* at a place where ")" must come
Close(ts, p) == IF ts[p].ty = ")" THEN Ok(p + 1)
                ELSE IF ts[p].ty = "EOF" THEN Unspec     \* a final ")" left out: tolerated or rejected
                ELSE Fail

RECURSIVE PExpr(_, _, _, _), PLoop(_, _, _, _), PPrimary(_, _, _), PItems(_, _, _, _)

PExpr(ts, p, lv, def) ==
  LET a == PPrimary(ts, p, def) IN IF ~a.ok THEN a ELSE PLoop(ts, a, lv, def)

\* data type recorded in a comparison node: that of a literal on the right, else of a literal on the left
CompareType(l, r) == IF r.cl = "types" THEN r.lt ELSE IF l.cl = "types" THEN l.lt ELSE "STRING"

PLoop(ts, a, lv, def) ==
  LET op == ts[a.p].ty
      l == Level(op)
  IN IF l = 0 \/ l < lv THEN a
     ELSE LET b == PExpr(ts, a.p + 1, l + 1, def) IN
          IF ~b.ok THEN b
          ELSE LET n == IF op \in Comparators
                        THEN [t |-> "cmp", op |-> op, l |-> a.n, r |-> b.n, dt |-> CompareType(a, b)]
                        ELSE IF op \in ArithOps THEN [t |-> "arith", op |-> op, l |-> a.n, r |-> b.n]
                        ELSE [t |-> "logic", op |-> op, l |-> a.n, r |-> b.n]
               IN PLoop(ts, Res(n, b.p, IF op \in {"AND", "OR"} THEN "logic" ELSE "other"), lv, def)

\* list elements after "(": Ok([n |-> nodes, p |-> position after ")"])
PItems(ts, p, acc, def) ==
  LET a == PExpr(ts, p, 0, def) IN
  IF ~a.ok THEN a
  ELSE LET bad == a.cl = "logic" IN
       IF ts[a.p].ty = "," THEN
          (LET rest == PItems(ts, a.p + 1, Append(acc, a.n), def) IN
           IF bad /\ (rest.ok \/ rest.e # "unspec") THEN Fail ELSE rest)
       ELSE LET c == Close(ts, a.p) IN
            IF ~c.ok THEN c ELSE IF bad THEN Fail ELSE [ok |-> TRUE, n |-> Append(acc, a.n), p |-> c.v]
PList(ts, p, def) ==
  IF ts[p].ty = "(" THEN PItems(ts, p + 1, << >>, def) ELSE Fail

PPrimary(ts, p, def) ==
  LET tok == ts[p] ty == tok.ty IN
  CASE ty = "(" ->
         (LET a == PExpr(ts, p + 1, 0, def) IN
          IF ~a.ok THEN a
          ELSE LET c == Close(ts, a.p) IN
               IF ~c.ok THEN c ELSE Res(a.n, c.v, IF a.cl = "logic" THEN "logic" ELSE "other"))
    [] ty = "NOT" ->
         (LET a == PExpr(ts, p + 1, NotOperandLevel, def) IN
          IF ~a.ok THEN a
          ELSE Res([t |-> "not", l |-> IF a.n.t = "field" THEN NLit("STRING", VStr(a.n.f)) ELSE a.n], a.p, "logic"))
    [] ty = "-" ->
         (LET a == PExpr(ts, p + 1, MinusOperandLevel, def) IN
          IF ~a.ok THEN a ELSE Res([t |-> "neg", l |-> a.n], a.p, "other"))
    [] ty \in FunctionNames ->
         (LET a == PList(ts, p + 1, def) IN IF ~a.ok THEN a ELSE Res([t |-> "fn", g |-> ty, args |-> a.n], a.p, "other"))
    [] ty = "FIELD" /\ ts[p + 1].ty \in {"INTEGER", "DECIMAL"} ->
         (IF ts[p + 2].ty = "TO" /\ ts[p + 3].ty \in {"INTEGER", "DECIMAL"}
          THEN LET lo == LiteralValue(ts[p + 1]) hi == LiteralValue(ts[p + 3]) IN
               IF lo.ok /\ hi.ok
               THEN Res([t |-> "range", f |-> tok.t, lo |-> lo.v, hi |-> hi.v], p + 4, "other")
               ELSE Fail
          ELSE Fail)
    [] ty = "FIELD" /\ ts[p + 1].ty = "IN" ->
         (LET a == PList(ts, p + 2, def) IN IF ~a.ok THEN a ELSE Res([t |-> "in", f |-> tok.t, args |-> a.n], a.p, "other"))
    [] ty = "FIELD" /\ ts[p + 1].ty = "NOT" ->
         (IF ts[p + 2].ty = "IN"
          THEN LET a == PList(ts, p + 3, def) IN
               IF ~a.ok THEN a ELSE Res([t |-> "not", l |-> [t |-> "in", f |-> tok.t, args |-> a.n]], a.p, "other")
          ELSE Fail)
    [] ty = "FIELD" /\ ts[p + 1].ty \in {"CONTAINS_ANY", "CONTAINS_ALL"} ->
         (LET a == PList(ts, p + 2, def) IN
          IF ~a.ok THEN a ELSE Res([t |-> "arr", op |-> ts[p + 1].ty, f |-> tok.t, args |-> a.n], a.p, "other"))
    [] ty = "FIELD" /\ TokenType(tok) = "STRING" -> ResTyped(NField(tok.t), p + 1, "STRING")
    [] ty = "FIELD" \/ ty \in LiteralTokens ->
         (LET v == LiteralValue(tok) IN IF v.ok THEN ResTyped(NLit(TokenType(tok), v.v), p + 1, TokenType(tok)) ELSE v)
    \* an operand left out stands for the default field
    [] OTHER -> (IF IsBlank(def) THEN Fail ELSE ResTyped(NField(def), p, TokenType(tok)))

\* outcome of parseExpression(text, def); a missing default field is the empty text
ParseTokens(ts, def) ==
  LET a == PExpr(ts, 1, 0, def) IN
  IF ~a.ok THEN a ELSE IF ts[a.p].ty = "EOF" THEN Ok(a.n) ELSE Fail
Parse(text, def) == LET l == Lex(text) IN IF l.ok THEN ParseTokens(l.toks, def) ELSE Fail
=============================================================================
