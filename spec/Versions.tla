------------------------------ MODULE Versions ------------------------------
(***************************************************************************)
(* The order of versions: any text is a version, a list of numbers,        *)
(* qualifiers and at most one nested list at its end, and versions are     *)
(* compared item by item, a missing item standing for a release            *)
(* (org.apache.maven.artifact.versioning.ComparableVersion).               *)
(*   item: [i |-> "n", n |-> Nat] | [i |-> "q", q |-> text]                *)
(*   list: [i |-> "l", items |-> Seq(item), sub |-> << >> | << list >>]    *)
(***************************************************************************)
EXTENDS BigNum

QualifierNames == << Codes("alpha"), Codes("beta"), Codes("milestone"), Codes("rc"), Codes("snapshot"), << >>, Codes("sp") >>
Release == << 53 >>          \* rank of the empty qualifier, "5"
QualifierAlias(q) == IF q \in {Codes("ga"), Codes("final")} THEN << >> ELSE IF q = Codes("cr") THEN Codes("rc") ELSE q
LetterAlias(q) == CASE q = Codes("a") -> QualifierNames[1] [] q = Codes("b") -> QualifierNames[2] [] q = Codes("m") -> QualifierNames[3] [] OTHER -> q
\* known qualifiers in their own order, all others behind them by their text
Rank(q) == IF \E k \in 1..Len(QualifierNames) : QualifierNames[k] = q
           THEN << 47 + CHOOSE k \in 1..Len(QualifierNames) : QualifierNames[k] = q >>
           ELSE << 55, 45 >> \o q

VNumber(t) == [i |-> "n", n |-> NOfDigits(t)]
\* a single letter in front of a digit is short for a qualifier
VQualifier(t, beforeDigit) == [i |-> "q", q |-> QualifierAlias(IF beforeDigit THEN LetterAlias(t) ELSE t)]
VItem(t) == IF t = << >> THEN [i |-> "n", n |-> << >>] ELSE IF IsDigitC(t[1]) THEN VNumber(t) ELSE VQualifier(t, FALSE)
IsNullItem(x) == IF x.i = "n" THEN x.n = << >> ELSE Rank(x.q) = Release

RECURSIVE TrimItems(_)
TrimItems(xs) == IF xs # << >> /\ IsNullItem(xs[Len(xs)]) THEN TrimItems(SubSeq(xs, 1, Len(xs) - 1)) ELSE xs
IsEmptyList(l) == l.items = << >> /\ l.sub = << >>
MkList(items, sub) == [i |-> "l", items |-> TrimItems(items), sub |-> IF IsEmptyList(sub) THEN << >> ELSE << sub >>]
NoList == [i |-> "l", items |-> << >>, sub |-> << >>]

\* the list of the text from p on; items so far; the item under way starts at s
RECURSIVE VList(_, _, _, _)
VList(t, p, s, items) ==
  IF p > Len(t) THEN MkList(IF s > Len(t) THEN items ELSE Append(items, VItem(SubSeq(t, s, Len(t)))), NoList)
  ELSE LET c == t[p] here == SubSeq(t, s, p - 1) IN
       IF c = 46 THEN VList(t, p + 1, p + 1, Append(items, VItem(here)))
       ELSE IF c = 45 THEN MkList(Append(items, VItem(here)), VList(t, p + 1, p + 1, << >>))
       ELSE IF p > s /\ IsDigitC(c) /\ ~IsDigitC(t[p - 1]) THEN MkList(Append(items, VQualifier(here, TRUE)), VList(t, p + 1, p, << >>))
       ELSE IF p > s /\ ~IsDigitC(c) /\ IsDigitC(t[p - 1]) THEN MkList(Append(items, VItem(here)), VList(t, p + 1, p, << >>))
       ELSE VList(t, p + 1, s, items)

\* the text of a version; letters beyond ASCII are outside the modelled domain
HasVersion(t) == \A k \in 1..Len(t) : t[k] < 128
VersionOf(t) == VList(Lower(t), 1, 1, << >>)

VLen(l) == Len(l.items) + Len(l.sub)
VAt(l, k) == IF k <= Len(l.items) THEN l.items[k] ELSE l.sub[1]
RECURSIVE ItemCmpNone(_), ItemCmp(_, _), ListCmp(_, _, _)
\* an item against a missing one
ItemCmpNone(x) == CASE x.i = "n" -> (IF x.n = << >> THEN 0 ELSE 1)
                    [] x.i = "q" -> TextCmp(Rank(x.q), Release)
                    [] x.i = "l" -> (IF VLen(x) = 0 THEN 0 ELSE ItemCmpNone(VAt(x, 1)))
\* qualifiers come before lists and those before numbers
KindRank(x) == CASE x.i = "q" -> 1 [] x.i = "l" -> 2 [] x.i = "n" -> 3
ItemCmp(x, y) ==
  IF x.i # y.i THEN (IF KindRank(x) < KindRank(y) THEN -1 ELSE 1)
  ELSE CASE x.i = "n" -> NCmp(x.n, y.n)
         [] x.i = "q" -> TextCmp(Rank(x.q), Rank(y.q))
         [] x.i = "l" -> ListCmp(x, y, 1)
ListCmp(a, b, k) ==
  IF k > VLen(a) /\ k > VLen(b) THEN 0
  ELSE LET c == IF k > VLen(a) THEN -ItemCmpNone(VAt(b, k)) ELSE IF k > VLen(b) THEN ItemCmpNone(VAt(a, k)) ELSE ItemCmp(VAt(a, k), VAt(b, k))
       IN IF c # 0 THEN c ELSE ListCmp(a, b, k + 1)
VersionCmp(a, b) == ListCmp(a, b, 1)
=============================================================================
