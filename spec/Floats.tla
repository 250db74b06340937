------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* Positive numbers to about 25 digits, [m |-> Nat, e |-> Int] of value    *)
(* m * 10000^e, for saying that a result is close to an exact one.         *)
(***************************************************************************)
EXTENDS BigNum

FLimbs == 7
FCut(m, e) == IF Len(m) <= FLimbs THEN [m |-> m, e |-> e] ELSE [m |-> SubSeq(m, Len(m) - FLimbs + 1, Len(m)), e |-> e + Len(m) - FLimbs]
FMul(a, b) == FCut(NMul(a.m, b.m), a.e + b.e)
FOne == [m |-> << 1 >>, e |-> 0]
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN FOne ELSE LET h == FPow(a, n \div 2) s == FMul(h, h) IN IF n % 2 = 0 THEN s ELSE FMul(a, s)
\* the magnitude of a decimal that is not zero
FOf(d) == LET k == (4 - (d.sc % 4)) % 4 IN FCut(NMulPow10(d.u.m, k), -((d.sc + k) \div 4))
\* digits in front of the decimal point: value in [10^(FDigits-1), 10^FDigits)
FDigits(a) == Len(NText(a.m)) + 4 * a.e
\* equal up to one part in 10^9
FNear(a, b) ==
  LET lo == IF a.e < b.e THEN a.e ELSE b.e
  IN /\ a.e - lo <= 12 /\ b.e - lo <= 12
     /\ LET x == NShift(a.m, a.e - lo) y == NShift(b.m, b.e - lo)
            diff == IF NCmp(x, y) >= 0 THEN NSub(x, y) ELSE NSub(y, x)
        IN NCmp(NMulPow10(diff, 9), y) <= 0
=============================================================================
