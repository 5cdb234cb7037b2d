---- MODULE BigNum ----
(* Integers and fractions of any size.  TLC's own integers have 32 bits, so a magnitude is a
   sequence of limbs in base 10^4, least significant first, without leading zero limbs (zero is
   the empty sequence).  An integer is [neg, m]; a fraction is [neg, n, d] in lowest terms with
   d > 0.  MCBigNum checks these operators against TLC's native arithmetic. *)
EXTENDS Integers, Sequences

B == 10000

LOCAL Max2(a, b) == IF a > b THEN a ELSE b
Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE Trim(_)
Trim(m) == IF Len(m) = 0 THEN m ELSE IF m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

\* Native natural number below 2^31 to magnitude, and back (for magnitudes below B^2).
RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<(n % B)>> \o MagOf(n \div B)
Small(m) == Len(m) <= 2
Native(m) == Limb(m, 1) + B * Limb(m, 2)

RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1
                ELSE MagCmpAt(a, b, Len(a))

RECURSIVE MagAddC(_, _, _, _, _)
MagAddC(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == Limb(a, i) + Limb(b, i) + c
       IN MagAddC(a, b, i + 1, s \div B, Append(acc, s % B))
MagAdd(a, b) == MagAddC(a, b, 1, 0, <<>>)

\* a - b, for a >= b.
RECURSIVE MagSubC(_, _, _, _, _)
MagSubC(a, b, i, c, acc) ==
  IF i > Len(a) THEN Trim(acc)
  ELSE LET s == Limb(a, i) - Limb(b, i) - c
       IN IF s < 0 THEN MagSubC(a, b, i + 1, 1, Append(acc, s + B))
                   ELSE MagSubC(a, b, i + 1, 0, Append(acc, s))
MagSub(a, b) == MagSubC(a, b, 1, 0, <<>>)

RECURSIVE MulSmallC(_, _, _, _, _)
MulSmallC(a, k, i, c, acc) ==
  IF i > Len(a) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == a[i] * k + c
       IN MulSmallC(a, k, i + 1, s \div B, Append(acc, s % B))
MulSmall(a, k) == IF k = 0 THEN <<>> ELSE MulSmallC(a, k, 1, 0, <<>>)

\* a * B^k
Shift(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a

RECURSIVE MagMulI(_, _, _, _)
MagMulI(a, b, i, acc) ==
  IF i > Len(a) THEN acc
  ELSE MagMulI(a, b, i + 1, MagAdd(acc, Shift(MulSmall(b, a[i]), i - 1)))
MagMul(a, b) == MagMulI(a, b, 1, <<>>)

\* Largest q in lo..hi with q*b <= r.
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MagCmp(MulSmall(b, mid), r) <= 0 THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)

\* Quotient and remainder of magnitudes, b # 0; q is collected most significant limb first.
RECURSIVE DivI(_, _, _, _, _)
DivI(a, b, i, q, r) ==
  IF i = 0 THEN [q |-> Trim([j \in 1..Len(q) |-> q[Len(q) + 1 - j]]), r |-> r]
  ELSE LET r1 == Trim(<<a[i]>> \o r)
           d == IF MagCmp(b, r1) > 0 THEN 0
                ELSE IF Small(r1) THEN Native(r1) \div Native(b)
                ELSE QDigit(r1, b, 0, B - 1)
       IN DivI(a, b, i - 1, Append(q, d), IF d = 0 THEN r1 ELSE MagSub(r1, MulSmall(b, d)))
MagDivMod(a, b) ==
  IF Small(a) /\ Small(b)
  THEN [q |-> MagOf(Native(a) \div Native(b)), r |-> MagOf(Native(a) % Native(b))]
  ELSE DivI(a, b, Len(a), <<>>, <<>>)

RECURSIVE NatGcd(_, _)
NatGcd(a, b) == IF b = 0 THEN a ELSE NatGcd(b, a % b)
RECURSIVE MagGcd(_, _)
MagGcd(a, b) == IF Small(a) /\ Small(b) THEN MagOf(NatGcd(Native(a), Native(b)))
                ELSE IF b = <<>> THEN a
                ELSE MagGcd(b, MagDivMod(a, b).r)

One == <<1>>
Pow10(k) == [i \in 1..(k \div 4) |-> 0] \o <<CASE k % 4 = 0 -> 1 [] k % 4 = 1 -> 10 [] k % 4 = 2 -> 100 [] OTHER -> 1000>>

\* Digits are code points, most significant first.
RECURSIVE DigitsVal(_, _, _, _)
DigitsVal(ds, i, hi, acc) == IF i > hi THEN acc ELSE DigitsVal(ds, i + 1, hi, acc * 10 + (ds[i] - 48))
RECURSIVE DigitsMag(_, _, _)
DigitsMag(ds, hi, acc) ==
  IF hi <= 0 THEN Trim(acc)
  ELSE DigitsMag(ds, hi - 4, Append(acc, DigitsVal(ds, Max2(1, hi - 3), hi, 0)))
MagOfDigits(ds) == DigitsMag(ds, Len(ds), <<>>)

LOCAL D4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE MagStrI(_, _, _)
MagStrI(m, i, acc) == IF i = 0 THEN acc ELSE MagStrI(m, i - 1, acc \o D4(m[i]))
RECURSIVE DropZeros(_)
DropZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN DropZeros(Tail(s)) ELSE s
\* Decimal digits of a magnitude.
MagStr(m) == IF m = <<>> THEN <<48>> ELSE DropZeros(MagStrI(m, Len(m), <<>>))

----
\* Integers.
MkInt(neg, m) == [neg |-> neg /\ m # <<>>, m |-> m]
IntOf(n) == IF n < 0 THEN MkInt(TRUE, MagOf(-n)) ELSE MkInt(FALSE, MagOf(n))
INeg(a) == MkInt(~a.neg, a.m)
IAdd(a, b) ==
  IF a.neg = b.neg THEN MkInt(a.neg, MagAdd(a.m, b.m))
  ELSE IF MagCmp(a.m, b.m) >= 0 THEN MkInt(a.neg, MagSub(a.m, b.m))
  ELSE MkInt(b.neg, MagSub(b.m, a.m))
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == MkInt(a.neg # b.neg, MagMul(a.m, b.m))
\* Remainder of the division truncated towards zero: it has the sign of the dividend.
IRem(a, b) == MkInt(a.neg, MagDivMod(a.m, b.m).r)
IZero(a) == a.m = <<>>
IntStr(a) == (IF a.neg THEN <<45>> ELSE <<>>) \o MagStr(a.m)

----
\* Fractions.
MkFrac(neg, n, d) ==
  IF n = <<>> THEN [neg |-> FALSE, n |-> <<>>, d |-> One]
  ELSE LET g == MagGcd(n, d)
       IN IF g = One THEN [neg |-> neg, n |-> n, d |-> d]
          ELSE [neg |-> neg, n |-> MagDivMod(n, g).q, d |-> MagDivMod(d, g).q]
FOfInt(a) == [neg |-> a.neg, n |-> a.m, d |-> One]
FNeg(a) == [a EXCEPT !.neg = ~a.neg /\ a.n # <<>>]
FAdd(a, b) ==
  LET s == IAdd(MkInt(a.neg, MagMul(a.n, b.d)), MkInt(b.neg, MagMul(b.n, a.d)))
  IN MkFrac(s.neg, s.m, MagMul(a.d, b.d))
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) == MkFrac(a.neg # b.neg, MagMul(a.n, b.n), MagMul(a.d, b.d))
FDiv(a, b) == MkFrac(a.neg # b.neg, MagMul(a.n, b.d), MagMul(a.d, b.n))
FZero(a) == a.n = <<>>

\* 2^64 - 1: the largest index that fits the machine.
MaxUsize == <<1615, 955, 737, 6744, 1844>>
====
