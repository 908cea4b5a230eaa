-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers <<numerator, denominator>>, reduced, with a      *)
(* positive denominator. NoNum stands for a missing number (None).         *)
EXTENDS Text

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
Q(n, d) == IF n = 0 THEN <<0, 1>>
           ELSE LET g == Gcd(AbsI(n), AbsI(d))
                    s == IF d < 0 THEN -1 ELSE 1
                IN <<s * (n \div g), s * (d \div g)>>
I2R(n) == <<n, 1>>
R0 == <<0, 1>>
R1 == <<1, 1>>
NoNum == <<0, 0>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[2] = b[2] THEN (IF a[2] = 1 THEN <<a[1] + b[1], 1>> ELSE Q(a[1] + b[1], a[2]))
  ELSE LET g == Gcd(a[2], b[2]) l == (a[2] \div g) * b[2]
       IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), l)
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN R0
  ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
  ELSE LET g == Gcd(AbsI(a[1]), b[2]) h == Gcd(AbsI(b[1]), a[2])
       IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RAbs(a) == <<AbsI(a[1]), a[2]>>
RHalf(a) == RMul(a, <<1, 2>>)
RSq(a) == RMul(a, a)
RECURSIVE RMinS(_), RMaxS(_), RSumS(_)
RMinS(q) == IF Len(q) = 1 THEN q[1] ELSE RMin(q[1], RMinS(Tail(q)))
RMaxS(q) == IF Len(q) = 1 THEN q[1] ELSE RMax(q[1], RMaxS(Tail(q)))
RSumS(q) == IF q = <<>> THEN R0 ELSE RAdd(q[1], RSumS(Tail(q)))

(* Decimal text: p digits after the point, rounded, no trailing zeros.     *)
RECURSIVE IntStr(_)
IntStr(n) == IF n < 10 THEN DigitSeq[n + 1] ELSE IntStr(n \div 10) \o DigitSeq[(n % 10) + 1]
RECURSIVE FracDigits(_, _, _)
FracDigits(r, d, p) == IF p = 0 THEN <<>>
                       ELSE <<(r * 10) \div d>> \o FracDigits((r * 10) % d, d, p - 1)
RECURSIVE FracRest(_, _, _)
FracRest(r, d, p) == IF p = 0 THEN r ELSE FracRest((r * 10) % d, d, p - 1)
RECURSIVE Carry(_, _)                 \* add 1 to the digits, least last
Carry(ds, i) == IF i = 0 THEN <<1, ds>>
                ELSE IF ds[i] < 9 THEN <<0, [ds EXCEPT ![i] = @ + 1]>>
                ELSE Carry([ds EXCEPT ![i] = 0], i - 1)
RECURSIVE TrimZeros(_)
TrimZeros(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0
                 THEN TrimZeros(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
Decimal(a, p) ==
  IF a[2] = 1 THEN (IF a[1] < 0 THEN "-" ELSE "") \o IntStr(AbsI(a[1])) ELSE
  LET n == AbsI(a[1]) d == a[2]
      ip == n \div d
      ds == FracDigits(n % d, d, p)
      rest == 2 * FracRest(n % d, d, p)
      c  == IF rest > d \/ (rest = d /\ ds[p] % 2 = 1) THEN Carry(ds, p) ELSE <<0, ds>>
      fr == TrimZeros(c[2])
      t  == IntStr(ip + c[1]) \o
            (IF fr = <<>> THEN "" ELSE "." \o Str([i \in 1 .. Len(fr) |-> DigitSeq[fr[i] + 1]]))
  IN IF a[1] < 0 /\ t # "0" THEN "-" \o t ELSE t
=============================================================================
