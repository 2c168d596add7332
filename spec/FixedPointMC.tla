----------------------------- MODULE FixedPointMC ----------------------------
(* The arithmetic against identities, over a grid of numbers and angles.      *)
EXTENDS FixedPoint
CONSTANT STEP
VARIABLES i, j
Grid == 0..(2048 \div STEP)
Init == i \in Grid /\ j = 0
Next == j < 2048 \div STEP /\ j' = j + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, j>>
t == i * STEP * 131072 + 77        \* an angle, over the whole turn
u == j * STEP * 131072 + 33
a == (i * STEP - 1024) * 524288 + 1234567    \* a number in [-2, 2]
b == (j * STEP - 1024) * 524288 + 7654321
\* a sphere's worth of identities, to a few units
Trig ==
    /\ Abs(Sq(Sin(t)) + Sq(Cos(t)) - One) <= 6
    /\ Abs(Sin(t + u) - Mul(Sin(t), Cos(u)) - Mul(Cos(t), Sin(u))) <= 12
    /\ Abs(Sin(t) + Sin(-t)) <= 2
    /\ Sin(22369621) - Half \in -4..4 /\ Sin(0) = 0 /\ Abs(Cos(0) - One) <= 4
Arith ==
    /\ Mul(a, b) = Mul(b, a)
    /\ Abs(Mul(a, b) + Mul(a, -b)) <= 2 /\ Abs(Mul(a, One) - a) <= 1
    /\ Abs(a) \div 4 <= Abs(b) /\ Abs(b) > 1000000 => Abs(Mul(Div(a, b), b) - a) <= 6
    /\ Abs(a) > 4000 => LET s == Sqrt(Abs(a)) IN Abs(Mul(s, s) - Abs(a)) <= 16
Rotation == LET v == <<a \div 4, b \div 4, (a + b) \div 8>> w == R3(t, R2(u, R1(t + u, v))) IN
    /\ Abs(Dot(w, w) - Dot(v, v)) <= 40
    /\ Close(R1(-t - u, R2(-u, R3(-t, w))), v, 40)
=============================================================================
