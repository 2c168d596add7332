------------------------------- MODULE UnitsGen ------------------------------
(* Random unit expressions: pairs over the same factors in different order,  *)
(* grouping and units, and unrelated pairs.                                  *)
EXTENDS Units, Json, Randomization
VARIABLES k
Rnd(a, b) == RandomElement(a..b)
Pick(d, x) == RandomElement(IF d = 1 THEN Range(Lengths) ELSE IF d = 2 THEN Range(Times)
                            ELSE IF d = 3 THEN Range(Angles) ELSE IF x = x THEN Range(Dates) ELSE {})
Frac(e) == IF e % 4 = 0 THEN <<e \div 4, 1>> ELSE IF e % 2 = 0 THEN <<e \div 2, 2>> ELSE <<e, 4>>
RECURSIVE Factors(_)
Factors(n) == IF n = 0 THEN <<>>
    ELSE LET d == Rnd(1, 6 + 0 * n) dd == IF d > 4 THEN d - 4 ELSE d IN
         <<[d |-> dd, n |-> Pick(dd, n), e |-> RandomElement({-12, -8, -4, 0, 4, 8, 12, 4, -4, Rnd(-3, 6), 4 * Rnd(-3, 3), 4 * Rnd(-1, 1)})]>> \o Factors(n - 1)
Neg(F) == [i \in 1..Len(F) |-> [F[i] EXCEPT !.e = -F[i].e]]
Rename(F) == [i \in 1..Len(F) |-> [F[i] EXCEPT !.n = IF Rnd(1, 2) = 1 THEN F[i].n ELSE Pick(F[i].d, i)]]
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Shuffle(F) == LET p == RandomElement(Perms(Len(F))) IN [i \in 1..Len(F) |-> F[p[i]]]
U(n) == [k |-> "u", n |-> n]
\* powers are in quarters
Leaf(f) ==
    LET c == Rnd(1, 6) IN
    IF f.e = 4 /\ c <= 4 THEN U(f.n)
    ELSE IF f.e = -4 /\ c <= 4 THEN [k |-> "inv", a |-> U(f.n)]
    ELSE IF f.e = 8 /\ c = 1 THEN [k |-> "mul", a |-> U(f.n), b |-> U(f.n)]
    ELSE IF f.e < 0 /\ c = 5 THEN [k |-> "inv", a |-> [k |-> "pow", a |-> U(f.n), e |-> Frac(-f.e)]]
    ELSE IF f.e % 2 = 0 /\ c = 6 THEN [k |-> "pow", a |-> [k |-> "pow", a |-> U(f.n), e |-> Frac(f.e \div 2)], e |-> <<2, 1>>]
    ELSE [k |-> "pow", a |-> U(f.n), e |-> Frac(f.e)]
\* some factors written as a product of two powers of the same unit
Split(F) == IF Rnd(1, 2) = 1 \/ Len(F) > 4 THEN F ELSE
    LET i == Rnd(1, Len(F)) p == RandomElement({-4, 4, -2, 2, -6, 6, -1, 1, 3}) IN
    Append([F EXCEPT ![i].e = @ - p], [F[i] EXCEPT !.e = p])
RECURSIVE Whole(_), Tree(_)
\* parts, too, may be user defined units
\* under a name of their own or one they may share with another unit
Def(t) == [k |-> "def", a |-> t, n |-> RandomElement({"", "x", "x", "km2"})]
Tree(F) == IF Rnd(1, 12) = 1 THEN Def(Whole(F)) ELSE Whole(F)
Whole(F) ==
    IF Len(F) = 1 THEN Leaf(F[1])
    ELSE LET c == Rnd(1, 12) s == Rnd(1, Len(F) - 1)
             A == SubSeq(F, 1, s) B == SubSeq(F, s + 1, Len(F)) IN
         CASE c <= 5 -> [k |-> "mul", a |-> Tree(A), b |-> Tree(B)]
           [] c <= 8 -> [k |-> "div", a |-> Tree(A), b |-> Tree(Neg(B))]
           [] c = 9  -> [k |-> "inv", a |-> Tree(Neg(F))]
           [] c = 10 -> IF \A i \in 1..Len(F) : F[i].e % 2 = 0
                        THEN [k |-> "pow", a |-> Tree([i \in 1..Len(F) |-> [F[i] EXCEPT !.e = @ \div 2]]), e |-> <<2, 1>>]
                        ELSE [k |-> "pow", a |-> Tree(Neg(F)), e |-> <<-1, 1>>]
           [] c = 11 -> [k |-> "pow", a |-> Tree([i \in 1..Len(F) |-> [F[i] EXCEPT !.e = 2 * @]]), e |-> <<1, 2>>]
           [] OTHER  -> [k |-> "mul", a |-> Tree(B), b |-> Tree(A)]
Kind(x) == RandomElement({"int", "float", "np.int64", "np.float64", "np.float32", "np.int32", IF x = x THEN "int" ELSE ""})
Numbered(t) == LET c == Rnd(1, 8) IN
    IF c = 1 THEN [k |-> "num", x |-> RandomElement({2, 3, 5, 10, 1234567}), t |-> Kind(1), a |-> t]
    ELSE IF c = 2 THEN [k |-> "mun", x |-> RandomElement({2, 3, 5, 10, 1234567}), t |-> Kind(2), a |-> t]
    ELSE IF c = 3 THEN [k |-> "mul", a |-> U("m"), b |-> [k |-> "div", a |-> [k |-> "num", x |-> 10, a |-> t], b |-> U("m")]]
    ELSE t
\* now and then a new unit defined by the expression
Named(t) == IF Rnd(1, 6) = 1 THEN Def(t) ELSE t
Gen(x) ==
    LET F == Factors(Rnd(1 + 0 * x, 4)) c == Rnd(1, 8)
        G == IF c <= 5 THEN Shuffle(Rename(F)) ELSE IF c = 6 THEN Shuffle(F)
             ELSE IF c = 7 THEN Factors(Rnd(1, 3)) ELSE Shuffle(F \o <<[d |-> 1, n |-> "m", e |-> 0]>>)
        H == IF Rnd(1, 6) = 1 THEN F \o Neg(Shuffle(F)) ELSE F IN
    [a |-> Named(Numbered(Tree(Split(H)))), b |-> Named(Numbered(Tree(Split(G))))]
\* quantities: x, y base amounts (mm, s, arcsec and their products) given in
\* units a, b of dimension d: length, time, angle, speed, area, angular
\* rate, frequency; some with a number
Small(d) == IF d = 1 THEN {"mm", "cm", "m", "km", "inch", "mi"} ELSE IF d = 2 THEN {"s", "min", "hr", "dy"}
            ELSE {"arcsec", "arcmin", "deg", "hourangle", "rad"}
One(d) == U(RandomElement(Small(d)))
Plain(d) == CASE d <= 3 -> One(d)
              [] d = 4 -> [k |-> "div", a |-> One(1), b |-> One(2)]
              [] d = 5 -> IF Rnd(1, 2) = 1 THEN [k |-> "pow", a |-> One(1), e |-> <<2, 1>>] ELSE [k |-> "mul", a |-> One(1), b |-> One(1)]
              [] d = 6 -> [k |-> "div", a |-> One(3), b |-> One(2)]
              [] d = 7 -> [k |-> "inv", a |-> One(2)]
Sized(d) == LET c == Rnd(1, 4) t == Plain(d) x == RandomElement({2, 3, 5, 10}) IN
            IF c = 1 THEN [k |-> "num", x |-> x, a |-> t] ELSE IF c = 2 /\ d > 3 THEN [k |-> "mun", x |-> x, a |-> t] ELSE t
Amount(x) == IF Rnd(1, 2) = 1 THEN Rnd(-4 + 0 * x, 4) ELSE Rnd(-1000, 1000)
Quant(x) ==
    LET d == Rnd(1 + 0 * x, 10) dd == IF d > 7 THEN d - 7 ELSE d e == IF Rnd(1, 3) < 3 THEN dd ELSE Rnd(1, 7) n == RandomElement({1, 1, 2, 3})
        w == RandomElement({"arith", "arith", "compare"}) IN
    [w |-> w, da |-> dd, db |-> e,
     f |-> RandomElement({"add", "sub", "neg", "mul", "div", "addn", "nadd", "subn", "nsub", "muln", "nmul", "divn", "ndiv"}),
     a |-> Sized(dd), b |-> Sized(e),
     kind |-> IF n = 1 THEN RandomElement({"int", "float", "array"}) ELSE "array",
     x |-> [i \in 1..n |-> Amount(i)], y |-> [i \in 1..n |-> Amount(i)], num |-> RandomElement((-9..20) \ {0}), numpy |-> Rnd(1, 3) = 1,
     one |-> RandomElement({"none", "none", "x", "y"})]
Init == k = 0
Next == k < 1 /\ k' = k + 1 /\ PrintT("GEN " \o ToJson([expr |-> Gen(k), quant |-> Quant(k)]))
GenSpec == Init /\ [][Next]_k
=============================================================================
