------------------------------- MODULE Rat -------------------------------
\* Exact rationals <<n, d>>, d > 0, in lowest terms.  TLC integers have 32 bits, so
\* every operation reduces before it multiplies where that is possible.
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a = 0 THEN 1 ELSE Abs(a)) ELSE Gcd(b, a % b)
\* % needs a positive modulus in TLC
GCD(a, b) == IF Abs(b) = 0 THEN (IF a = 0 THEN 1 ELSE Abs(a)) ELSE Gcd(Abs(a), Abs(b))
Lcm(a, b) == (a \div GCD(a, b)) * b

R(n, d) == LET g == GCD(n, d)
               s == IF d < 0 THEN -1 ELSE 1
           IN  <<s * (n \div g), s * (d \div g)>>
RI(n) == <<n, 1>>
RZero == <<0, 1>>
ROne == <<1, 1>>
RHalf == <<1, 2>>

RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == LET g == GCD(a[2], b[2])
              IN  R(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g1 == GCD(a[1], b[2])
                  g2 == GCD(b[1], a[2])
              IN  R((a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1))
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0
REq(a, b) == RSub(a, b)[1] = 0
RAbs(a) == <<Abs(a[1]), a[2]>>
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RFloor(a) == a[1] \div a[2]
\* a modulo m (m > 0), in [0, m)
RMod(a, m) == RSub(a, RMul(RI(RFloor(RDiv(a, m))), m))
RLerp(a, b, t) == RAdd(RMul(RSub(ROne, t), a), RMul(t, b))
IsRat(a) == /\ a[2] > 0
            /\ GCD(a[1], a[2]) = 1
RSign(a) == Sgn(a[1])

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSum(Tail(s)))

\* vectors of rationals
VAdd(u, v) == [i \in DOMAIN u |-> RAdd(u[i], v[i])]
VSub(u, v) == [i \in DOMAIN u |-> RSub(u[i], v[i])]
VScale(k, v) == [i \in DOMAIN v |-> RMul(k, v[i])]
VLerp(u, v, t) == [i \in DOMAIN u |-> RLerp(u[i], v[i], t)]
VNeg(v) == [i \in DOMAIN v |-> RNeg(v[i])]
VZero == <<RZero, RZero, RZero>>
VInt(v) == [i \in DOMAIN v |-> RI(v[i])]
==========================================================================
