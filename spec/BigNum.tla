------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Exact arithmetic for TLC, whose integers have 32 bits.                  *)
(*   Nat  : little endian limbs in base 10^4 without high zero limbs       *)
(*   Num  : [s |-> -1 | 0 | 1, m |-> Nat]            (java.math.BigInteger)*)
(*   Dec  : [u |-> Num, sc |-> Int], value u * 10^-sc (java.math.BigDecimal)*)
(***************************************************************************)
EXTENDS Integers, Sequences, Text

Base == 10000

RECURSIVE NTrim(_)
NTrim(a) == IF a = << >> THEN a ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE NCmpAt(a, b, Len(a))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NAddAt(_, _, _, _, _)
NAddAt(a, b, i, c, r) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN r ELSE Append(r, c))
  ELSE LET x == Limb(a, i) + Limb(b, i) + c IN NAddAt(a, b, i + 1, x \div Base, Append(r, x % Base))
NAdd(a, b) == NAddAt(a, b, 1, 0, << >>)

\* a - b for a >= b
RECURSIVE NSubAt(_, _, _, _, _)
NSubAt(a, b, i, c, r) ==
  IF i > Len(a) THEN NTrim(r)
  ELSE LET x == a[i] - Limb(b, i) - c IN
       IF x < 0 THEN NSubAt(a, b, i + 1, 1, Append(r, x + Base)) ELSE NSubAt(a, b, i + 1, 0, Append(r, x))
NSub(a, b) == NSubAt(a, b, 1, 0, << >>)

\* a * k for 0 <= k <= Base
RECURSIVE NMulSmallAt(_, _, _, _, _)
NMulSmallAt(a, k, i, c, r) ==
  IF i > Len(a) THEN (IF c = 0 THEN r ELSE Append(r, c))
  ELSE LET x == a[i] * k + c IN NMulSmallAt(a, k, i + 1, x \div Base, Append(r, x % Base))
NMulSmall(a, k) == IF k = 0 THEN << >> ELSE NMulSmallAt(a, k, 1, 0, << >>)

RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN << >> ELSE Append(Zeros(n - 1), 0)
NShift(a, n) == IF a = << >> THEN a ELSE Zeros(n) \o a

RECURSIVE NMulAt(_, _, _, _)
NMulAt(a, b, i, r) == IF i > Len(b) THEN r ELSE NMulAt(a, b, i + 1, NAdd(r, NShift(NMulSmall(a, b[i]), i - 1)))
NMul(a, b) == IF a = << >> \/ b = << >> THEN << >> ELSE NMulAt(a, b, 1, << >>)

\* <<quotient, remainder>> by a limb
RECURSIVE NDivSmallAt(_, _, _, _, _)
NDivSmallAt(a, k, i, rem, q) ==
  IF i = 0 THEN << NTrim(q), IF rem = 0 THEN << >> ELSE << rem >> >>
  ELSE LET x == rem * Base + a[i] IN NDivSmallAt(a, k, i - 1, x % k, << x \div k >> \o q)
NDivSmall(a, k) == NDivSmallAt(a, k, Len(a), 0, << >>)

\* largest q in lo..hi with b * q <= r
RECURSIVE QSearch(_, _, _, _)
QSearch(b, r, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN
       IF NCmp(NMulSmall(b, mid), r) <= 0 THEN QSearch(b, r, mid, hi) ELSE QSearch(b, r, lo, mid - 1)

RECURSIVE NDivAt(_, _, _, _, _)
NDivAt(a, b, i, rem, q) ==
  IF i = 0 THEN << NTrim(q), rem >>
  ELSE LET r == NTrim(<< a[i] >> \o rem)
           d == QSearch(b, r, 0, Base - 1)
       IN NDivAt(a, b, i - 1, NSub(r, NMulSmall(b, d)), << d >> \o q)
\* truncated division by b # 0
NDivMod(a, b) ==
  IF NCmp(a, b) < 0 THEN << << >>, a >>
  ELSE IF Len(b) = 1 THEN NDivSmall(a, b[1])
  ELSE NDivAt(a, b, Len(a), << >>, << >>)

SmallPow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] OTHER -> 1000
NMulPow10(a, k) == IF k = 0 THEN a ELSE NShift(NMulSmall(a, SmallPow10(k % 4)), k \div 4)
NDropLimbs(a, n) == IF n >= Len(a) THEN << >> ELSE SubSeq(a, n + 1, Len(a))
\* quotient by 10^k
NDivPow10(a, k) == LET b == NDropLimbs(a, k \div 4) IN IF k % 4 = 0 THEN b ELSE NDivSmall(b, SmallPow10(k % 4))[1]

RECURSIVE NDigitsAt(_, _)
NDigitsAt(a, i) == IF i = 0 THEN << >> ELSE NDigitsAt(a, i - 1) \o PadLeft(SmallNatText(a[Len(a) + 1 - i]), 4)
RECURSIVE StripLeadingZeros(_)
StripLeadingZeros(t) == IF Len(t) > 1 /\ t[1] = 48 THEN StripLeadingZeros(SubSeq(t, 2, Len(t))) ELSE t
\* decimal digits (most significant first)
NText(a) == IF a = << >> THEN << 48 >> ELSE StripLeadingZeros(NDigitsAt(a, Len(a)))

RECURSIVE NOfDigitsAt(_, _)
NOfDigitsAt(t, n) ==
  IF n = 0 THEN << >>
  ELSE IF n <= 4 THEN << SmallNat(SubSeq(t, 1, n)) >>
  ELSE << SmallNat(SubSeq(t, n - 3, n)) >> \o NOfDigitsAt(t, n - 4)
NOfDigits(t) == NTrim(NOfDigitsAt(t, Len(t)))

RECURSIVE NOfInt(_)
NOfInt(n) == IF n = 0 THEN << >> ELSE << n % Base >> \o NOfInt(n \div Base)
\* value of a Nat below 2^31
RECURSIVE IntOfN(_)
IntOfN(a) == IF a = << >> THEN 0 ELSE a[1] + Base * IntOfN(SubSeq(a, 2, Len(a)))

-----------------------------------------------------------------------------
Num0 == [s |-> 0, m |-> << >>]
MkNum(s, m) == IF m = << >> THEN Num0 ELSE [s |-> s, m |-> m]
NumOf(n) == IF n < 0 THEN MkNum(-1, NOfInt(-n)) ELSE MkNum(1, NOfInt(n))
INeg(a) == [s |-> -a.s, m |-> a.m]
ICmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE IF a.s = 0 THEN 0 ELSE a.s * NCmp(a.m, b.m)
IAdd(a, b) ==
  IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
  ELSE IF a.s = b.s THEN [s |-> a.s, m |-> NAdd(a.m, b.m)]
  ELSE LET c == NCmp(a.m, b.m) IN
       IF c = 0 THEN Num0 ELSE IF c > 0 THEN [s |-> a.s, m |-> NSub(a.m, b.m)] ELSE [s |-> b.s, m |-> NSub(b.m, a.m)]
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == MkNum(a.s * b.s, NMul(a.m, b.m))
\* truncated quotient and remainder with the sign of the dividend, b # 0
IDiv(a, b) == MkNum(a.s * b.s, NDivMod(a.m, b.m)[1])
IRem(a, b) == MkNum(a.s, NDivMod(a.m, b.m)[2])
IText(a) == IF a.s < 0 THEN << 45 >> \o NText(a.m) ELSE NText(a.m)

MaxInt32 == NOfDigits(Codes("2147483647"))
MaxInt64 == NOfDigits(Codes("9223372036854775807"))
FitsBound(a, max) == NCmp(a.m, max) <= 0 \/ (a.s < 0 /\ NCmp(NSub(a.m, << 1 >>), max) <= 0)
FitsInt(a) == FitsBound(a, MaxInt32)
FitsLong(a) == FitsBound(a, MaxInt64)

-----------------------------------------------------------------------------
MkDec(u, sc) == [u |-> u, sc |-> sc]
DecOfNum(a) == MkDec(a, 0)
UpTo(d, sc) == IF d.sc >= sc THEN d.u ELSE MkNum(d.u.s, NMulPow10(d.u.m, sc - d.sc))
MaxI(a, b) == IF a >= b THEN a ELSE b
DCmp(a, b) == LET sc == MaxI(a.sc, b.sc) IN ICmp(UpTo(a, sc), UpTo(b, sc))
DAdd(a, b) == LET sc == MaxI(a.sc, b.sc) IN MkDec(IAdd(UpTo(a, sc), UpTo(b, sc)), sc)
DNeg(a) == MkDec(INeg(a.u), a.sc)
DSub(a, b) == DAdd(a, DNeg(b))
DMul(a, b) == MkDec(IMul(a.u, b.u), a.sc + b.sc)
\* a / b truncated towards zero at sc digits, b # 0:  floor(|ua|*10^(sc+sb-sa) / |ub|)
DDivDown(a, b, sc) ==
  LET e == sc + b.sc - a.sc
      n == IF e >= 0 THEN NMulPow10(a.u.m, e) ELSE a.u.m
      d == IF e >= 0 THEN b.u.m ELSE NMulPow10(b.u.m, -e)
  IN MkDec(MkNum(a.u.s * b.u.s, NDivMod(n, d)[1]), sc)

RECURSIVE StripAt(_, _)
StripAt(m, sc) == IF m # << >> /\ m[1] % 10 = 0 THEN StripAt(NDivPow10(m, 1), sc - 1) ELSE << m, sc >>
\* stripTrailingZeros
DStrip(d) == IF d.u.s = 0 THEN MkDec(Num0, 0) ELSE LET r == StripAt(d.u.m, d.sc) IN MkDec([s |-> d.u.s, m |-> r[1]], r[2])
DIsIntegral(d) == d.sc <= 0 \/ DStrip(d).sc <= 0
\* truncation towards zero
DTrunc(d) == IF d.sc <= 0 THEN UpTo(d, 0) ELSE MkNum(d.u.s, NDivPow10(d.u.m, d.sc))

\* BigDecimal.toString
DText(d) ==
  LET ds  == NText(d.u.m)
      n   == Len(ds)
      adj == n - 1 - d.sc
      sg  == IF d.u.s < 0 THEN << 45 >> ELSE << >>
  IN IF d.sc = 0 THEN sg \o ds
     ELSE IF d.sc > 0 /\ adj >= -6
     THEN sg \o (IF n > d.sc THEN SubSeq(ds, 1, n - d.sc) \o << 46 >> \o SubSeq(ds, n - d.sc + 1, n)
                 ELSE << 48, 46 >> \o PadLeft(ds, d.sc))
     ELSE sg \o (IF n = 1 THEN ds ELSE << ds[1], 46 >> \o SubSeq(ds, 2, n))
             \o (IF adj = 0 THEN << >>
                 ELSE << 69 >> \o (IF adj > 0 THEN << 43 >> \o SmallNatText(adj) ELSE << 45 >> \o SmallNatText(-adj)))

\* new BigDecimal(text), as [ok, d]; exponents of more than 4 digits are out of the modelled domain (never generated)
NotNum == [ok |-> FALSE]
UnsignedDec(t, sg) ==
  LET e1  == IndexFrom(t, 101, 1)
      e2  == IndexFrom(t, 69, 1)
      ei  == IF e1 # 0 THEN e1 ELSE e2
      man == IF ei = 0 THEN t ELSE SubSeq(t, 1, ei - 1)
      ex0 == IF ei = 0 THEN << >> ELSE SubSeq(t, ei + 1, Len(t))
      exs == IF ex0 # << >> /\ ex0[1] \in {43, 45} THEN SubSeq(ex0, 2, Len(ex0)) ELSE ex0
      exn == ex0 # << >> /\ ex0[1] = 45
      dot == IndexFrom(man, 46, 1)
      ip  == IF dot = 0 THEN man ELSE SubSeq(man, 1, dot - 1)
      fp  == IF dot = 0 THEN << >> ELSE SubSeq(man, dot + 1, Len(man))
      exv == IF exs = << >> THEN 0 ELSE SmallNat(exs)
  IN IF /\ AllDigits(ip) /\ AllDigits(fp) /\ (ip \o fp) # << >>
        /\ (ei # 0 => (exs # << >> /\ AllDigits(exs) /\ Len(exs) <= 9))
     THEN [ok |-> TRUE, d |-> MkDec(MkNum(sg, NOfDigits(ip \o fp)), Len(fp) - (IF exn THEN -exv ELSE exv))]
     ELSE NotNum
DecOfText(t) ==
  IF t = << >> THEN NotNum
  ELSE IF t[1] = 45 THEN UnsignedDec(SubSeq(t, 2, Len(t)), -1)
  ELSE IF t[1] = 43 THEN UnsignedDec(SubSeq(t, 2, Len(t)), 1)
  ELSE UnsignedDec(t, 1)
=============================================================================
