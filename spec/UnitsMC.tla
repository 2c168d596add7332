------------------------------- MODULE UnitsMC -------------------------------
(* The laws the algebra of units must have, checked on all expressions of   *)
(* depth two over four units and a number.                                   *)
EXTENDS Units
VARIABLES x, y
L0 == {[k |-> "u", n |-> n] : n \in {"m", "km", "s", "deg"}}
L1 == L0 \cup {[k |-> f, a |-> a, b |-> b] : f \in {"mul", "div"}, a \in L0, b \in L0}
        \cup {[k |-> "pow", a |-> a, e |-> <<e, 1>>] : a \in L0, e \in {-2, 0, 1, 3}}
        \cup {[k |-> "inv", a |-> a] : a \in L0}
        \cup {[k |-> "num", x |-> 5, a |-> a] : a \in L0}
Init == x \in L1 /\ y \in L1
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Mul(a, b) == [k |-> "mul", a |-> a, b |-> b]
Div(a, b) == [k |-> "div", a |-> a, b |-> b]
Pw(a, e) == [k |-> "pow", a |-> a, e |-> <<e, 1>>]
V(e) == Eval(e).u
Commutes == V(Mul(x, y)) = V(Mul(y, x))
Cancels == V(Div(x, x)) = Zero.u /\ V(Mul(x, [k |-> "inv", a |-> x])) = Zero.u /\ V(Pw(x, 0)) = Zero.u
DivIsMul == V(Div(x, y)) = V(Mul(x, Pw(y, -1)))
Powers == V(Pw(Mul(x, y), 2)) = V(Mul(Pw(x, 2), Pw(y, 2))) /\ V(Pw(Pw(x, 2), 3)) = V(Pw(x, 6))
Leaf == [i \in 1..Len(Names) |-> 1000 * i]
Homomorphism == LnSize(Eval(Mul(x, y)), Leaf) = LnSize(Eval(x), Leaf) + LnSize(Eval(y), Leaf)
DimHom == \A d \in 1..4 : Dims(Eval(Mul(x, y)))[d] = Dims(Eval(x))[d] + Dims(Eval(y))[d]
\* the defined ratios of the predefined units: 1 mi = 1760 yd = 5280 ft = 63360 inch ...
Ratio(a, b, n) == LET p == Size(a) q == Size(b) IN
    \* p = n q as fractions, compared by cross multiplication of reduced terms
    (p[1] * q[2]) \div 5 = (n * q[1] * p[2]) \div 5 /\ p[3] = q[3]
Table == /\ Ratio("yd", "inch", 36) /\ Ratio("ft", "inch", 12) /\ Ratio("yd", "ft", 3)
         /\ Ratio("mi", "yd", 1760) /\ Ratio("mi", "ft", 5280)
         /\ Ratio("km", "m", 1000) /\ Ratio("m", "cm", 100) /\ Ratio("m", "mm", 1000) /\ Ratio("cm", "mm", 10)
         /\ Ratio("dy", "hr", 24) /\ Ratio("hr", "min", 60) /\ Ratio("min", "s", 60)
         /\ Ratio("deg", "arcmin", 60) /\ Ratio("arcmin", "arcsec", 60) /\ Ratio("hourangle", "deg", 15)
=============================================================================
