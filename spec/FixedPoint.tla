------------------------------ MODULE FixedPoint -----------------------------
(* Fixed-point arithmetic within TLC's 32-bit integers. A number x is held    *)
(* as round(x * 2^28), |x| < 8; an angle as its number of turns, modulo one.  *)
EXTENDS Integers, Sequences, TLC
One == 268435456        \* 2^28
Half == 134217728
K14 == 16384
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == {s[i] : i \in 1..Len(s)}
Clause(name, ok) == IF ok THEN {} ELSE {name}

\* product of two numbers, in halves of 14 bits; |a * b| < 8
Mul(a, b) ==
    LET a1 == a \div K14 a0 == a % K14 b1 == b \div K14 b0 == b % K14 IN
    a1 * b1 + (a1 * b0 + a0 * b1 + (a0 * b0) \div K14 + 8192) \div K14
Sq(a) == Mul(a, a)

\* ---- angles
Turn(t) == t % One
Signed(t) == LET u == t % One IN IF u >= Half THEN u - One ELSE u
HalfPi == 421657428
\* sine of r quarter turns, 0 <= r <= 1
SinQuarter(r) ==
    LET x == Mul(r, HalfPi) y == Sq(x)
        h6 == One - y \div 156
        h5 == One - Mul(y \div 110, h6)
        h4 == One - Mul(y \div 72, h5)
        h3 == One - Mul(y \div 42, h4)
        h2 == One - Mul(y \div 20, h3)
        h1 == One - Mul(y \div 6, h2) IN
    Mul(x, h1)
Sin(t) ==
    LET u == t % One q == u \div 67108864 r == 4 * (u % 67108864) IN
    CASE q = 0 -> SinQuarter(r)
      [] q = 1 -> SinQuarter(One - r)
      [] q = 2 -> -SinQuarter(r)
      [] OTHER -> -SinQuarter(One - r)
Cos(t) == Sin(t + 67108864)

\* quotient of 0 <= a < 8 b, 0 < b < 4, bit by bit
RECURSIVE DivBits(_, _, _, _)
DivBits(r, b, k, q) ==
    IF k = 0 THEN IF 2 * r >= b THEN q + 1 ELSE q
    ELSE IF 2 * r >= b THEN DivBits(2 * r - b, b, k - 1, 2 * q + 1) ELSE DivBits(2 * r, b, k - 1, 2 * q)
Div(a, b) == LET s == IF (a < 0) = (b < 0) THEN 1 ELSE -1 x == Abs(a) y == Abs(b) IN
    s * DivBits(x % y, y, 28, x \div y)
\* square root of 0 <= a < 4: the largest s with s^2 <= a, by Newton steps
RECURSIVE Newton(_, _, _)
Newton(a, s, k) == LET n == (s + Div(a, s)) \div 2 IN IF k = 0 \/ Abs(n - s) <= 1 THEN n ELSE Newton(a, n, k - 1)
RECURSIVE Guess(_, _)
Guess(a, g) == IF g >= One + One - 1 \/ Mul(g, g) >= a THEN g ELSE Guess(a, 2 * g)
Sqrt(a) == IF a <= 0 THEN 0 ELSE Newton(a, Guess(a, 32768), 40)

\* ---- vectors and matrices (tuples)
Dot(u, v) == Mul(u[1], v[1]) + Mul(u[2], v[2]) + Mul(u[3], v[3])
Norm(u) == Sqrt(Dot(u, u))
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Scale(c, u) == <<Mul(c, u[1]), Mul(c, u[2]), Mul(c, u[3])>>
Cross(u, v) == <<Mul(u[2], v[3]) - Mul(u[3], v[2]), Mul(u[3], v[1]) - Mul(u[1], v[3]), Mul(u[1], v[2]) - Mul(u[2], v[1])>>
\* rotations of the axes by the angle t about the x, y and z axis
R1(t, v) == LET c == Cos(t) s == Sin(t) IN <<v[1], Mul(c, v[2]) + Mul(s, v[3]), Mul(c, v[3]) - Mul(s, v[2])>>
R2(t, v) == LET c == Cos(t) s == Sin(t) IN <<Mul(c, v[1]) - Mul(s, v[3]), v[2], Mul(c, v[3]) + Mul(s, v[1])>>
R3(t, v) == LET c == Cos(t) s == Sin(t) IN <<Mul(c, v[1]) + Mul(s, v[2]), Mul(c, v[2]) - Mul(s, v[1]), v[3]>>
Close(u, v, tol) == \A i \in 1..3 : Abs(u[i] - v[i]) <= tol
=============================================================================
