-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of UTF-16 code units (what java.lang.String is and  *)
(* what String.compareTo orders).  Codes turns a TLA+ string literal into  *)
(* such a sequence, so that the specification can name keywords legibly.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CharCode == [ch \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
               31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch]

Codes(s) == [i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]]

IsDigitC(c) == c >= 48 /\ c <= 57
IsUpperC(c) == c >= 65 /\ c <= 90
IsLowerC(c) == c >= 97 /\ c <= 122
\* characters of the FIELD token
IsFieldC(c) == IsDigitC(c) \/ IsUpperC(c) \/ IsLowerC(c) \/ c = 46 \/ c = 95
\* characters of the WS token
IsSpaceC(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 12 \/ c = 13

Upper(t) == [i \in 1..Len(t) |-> IF IsLowerC(t[i]) THEN t[i] - 32 ELSE t[i]]
Lower(t) == [i \in 1..Len(t) |-> IF IsUpperC(t[i]) THEN t[i] + 32 ELSE t[i]]

AllDigits(t) == \A i \in 1..Len(t) : IsDigitC(t[i])

\* lexicographic order of String.compareTo: -1, 0 or 1
RECURSIVE TextCmpAt(_, _, _)
TextCmpAt(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
  ELSE TextCmpAt(a, b, i + 1)
TextCmp(a, b) == IF a = b THEN 0 ELSE TextCmpAt(a, b, 1)

\* first index >= i holding code c, or 0
RECURSIVE IndexFrom(_, _, _)
IndexFrom(t, c, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE IndexFrom(t, c, i + 1)

\* split at every occurrence of c (as many parts as occurrences plus one)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(t, c, i) ==
  LET j == IndexFrom(t, c, i) IN
  IF j = 0 THEN << SubSeq(t, i, Len(t)) >>
  ELSE << SubSeq(t, i, j - 1) >> \o SplitFrom(t, c, j + 1)
SplitAll(t, c) == SplitFrom(t, c, 1)

\* java.lang.String.split: the trailing empty parts are dropped
RECURSIVE DropTrailingEmpty(_)
DropTrailingEmpty(ps) ==
  IF ps = << >> THEN << >>
  ELSE IF ps[Len(ps)] = << >> THEN DropTrailingEmpty(SubSeq(ps, 1, Len(ps) - 1))
  ELSE ps
JavaSplit(t, c) == IF t = << >> THEN << << >> >> ELSE DropTrailingEmpty(SplitAll(t, c))

\* small digit texts (at most 9 digits) as TLC integers
RECURSIVE SmallNatAt(_, _, _)
SmallNatAt(t, i, acc) == IF i > Len(t) THEN acc ELSE SmallNatAt(t, i + 1, acc * 10 + (t[i] - 48))
SmallNat(t) == SmallNatAt(t, 1, 0)

RECURSIVE SmallNatText(_)
SmallNatText(n) == IF n < 10 THEN << 48 + n >> ELSE Append(SmallNatText(n \div 10), 48 + (n % 10))

RECURSIVE PadLeft(_, _)
PadLeft(t, n) == IF Len(t) >= n THEN t ELSE PadLeft(<< 48 >> \o t, n)
=============================================================================
