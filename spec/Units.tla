-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Unit expressions and quantities.                                        *)
(* Expression: [k |-> "u", n] a named unit; [k |-> "mul"/"div", a, b];     *)
(* [k |-> "pow", a, e] with e = <<num, den>>; [k |-> "num"/"mun", x, a]    *)
(* a number times an expression (on the left / on the right);              *)
(* [k |-> "inv", a] = 1 / a; [k |-> "def", a] a new named unit equal to a. *)
(* The meaning of an expression is a vector of exponents: of the named     *)
(* units it contains (Exps), of the dimensions (Dims), and its numeric     *)
(* factor; all scaled by 4 so that square roots stay integral.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(name, ok) == IF ok THEN {} ELSE {name}
Range(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x

Lengths == <<"m", "mm", "cm", "km", "inch", "ft", "yd", "mi">>
Times == <<"s", "min", "hr", "dy">>
Angles == <<"deg", "rad", "arcsec", "arcmin", "hourangle">>
Dates == <<"jd2000">>
Names == Lengths \o Times \o Angles \o Dates
DimOf(n) == IF n \in Range(Lengths) THEN 1 ELSE IF n \in Range(Times) THEN 2
            ELSE IF n \in Range(Angles) THEN 3 ELSE 4
Index(n) == CHOOSE i \in 1..Len(Names) : Names[i] = n

\* Defined sizes in m, s, deg: <<num, den, power of pi>>
Size(n) == CASE n = "m" -> <<1, 1, 0>> [] n = "mm" -> <<1, 1000, 0>> [] n = "cm" -> <<1, 100, 0>>
             [] n = "km" -> <<1000, 1, 0>> [] n = "inch" -> <<127, 5000, 0>> [] n = "ft" -> <<381, 1250, 0>>
             [] n = "yd" -> <<1143, 1250, 0>> [] n = "mi" -> <<201168, 125, 0>>
             [] n = "s" -> <<1, 1, 0>> [] n = "min" -> <<60, 1, 0>> [] n = "hr" -> <<3600, 1, 0>>
             [] n = "dy" -> <<86400, 1, 0>>
             [] n = "deg" -> <<1, 1, 0>> [] n = "rad" -> <<180, 1, -1>> [] n = "arcsec" -> <<1, 3600, 0>>
             [] n = "arcmin" -> <<1, 60, 0>> [] n = "hourangle" -> <<15, 1, 0>>
             [] n = "jd2000" -> <<1, 1, 0>>
Base(d) == <<"m", "s", "deg", "jd2000">>[d]

\* natural logarithms scaled by 2^20
Ln(x) == CASE x = 2 -> 726817 [] x = 3 -> 1151978 [] x = 5 -> 1687609 [] x = 10 -> 2414426 [] x = 1234567 -> 14707569

Zero == [u |-> [i \in 1..Len(Names) |-> 0], ln |-> 0, num |-> FALSE]
Plus(a, b) == [u |-> [i \in 1..Len(Names) |-> a.u[i] + b.u[i]], ln |-> a.ln + b.ln, num |-> a.num \/ b.num]
Times4(a, e) == [u |-> [i \in 1..Len(Names) |-> (a.u[i] * e[1]) \div e[2]], ln |-> (a.ln * e[1]) \div e[2], num |-> a.num]
RECURSIVE Eval(_)
Eval(x) ==
    CASE x.k = "u" -> [Zero EXCEPT !.u[Index(x.n)] = 4]
      [] x.k = "mul" -> Plus(Eval(x.a), Eval(x.b))
      [] x.k = "div" -> Plus(Eval(x.a), Times4(Eval(x.b), <<-1, 1>>))
      [] x.k = "pow" -> Times4(Eval(x.a), x.e)
      [] x.k = "inv" -> Times4(Eval(x.a), <<-1, 1>>)
      [] x.k = "def" -> Eval(x.a)
      [] x.k \in {"num", "mun"} -> Plus([Zero EXCEPT !.ln = Ln(x.x), !.num = TRUE], Eval(x.a))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Dims(v) == [d \in 1..4 |-> SumSeq([i \in 1..Len(Names) |-> IF DimOf(Names[i]) = d THEN v.u[i] ELSE 0])]
\* logarithm of the size, from the logarithms of the named units' sizes
LnSize(v, leaf) == v.ln + SumSeq([i \in 1..Len(Names) |-> (v.u[i] * leaf[i]) \div 4])
Tol(v) == 12 + SumSeq([i \in 1..Len(Names) |-> Abs(v.u[i])])

-----------------------------------------------------------------------------
(* Requirements on recorded events                                         *)

\* e: a, b expressions; ok: could a be converted to b; ln: log of the ratio
ConvertClauses(e) ==
    LET va == Eval(e.a) vb == Eval(e.b) same == Dims(va) = Dims(vb)
        want == LnSize(va, e.leaf) - LnSize(vb, e.leaf) IN
    Clause("C12.dimension", (e.res = "ok") = same /\ e.res \in {"ok", "ValueError"})
    \cup Clause("C12.dimension_equal", e.dimeq = same)
    \cup Clause("C12.size", e.res = "ok" /\ same => Abs(e.ln - want) <= Tol(va) + Tol(vb))
    \cup Clause("C13.compound", ((e.res = "ok") = same)
                                /\ (e.res = "ok" => Abs(e.ln - want) <= Tol(va) + Tol(vb)))
    \cup Clause("C12.unity", (va.u = Zero.u /\ ~va.num) => e.unity)
    \cup Clause("C15.units", e.same)

PredefinedClauses(e) == \* one e.n is e.dev (in 1e-12) away from its defined size
    Clause("C13.predefined", Abs(e.dev) <= 100)

\* e.to = n: conversions among a, b, c of a value (int, float or array)
GroupClauses(e) ==
    LET same(x, y) == DimOf(x) = DimOf(y) IN
    Clause("C13.dimension", (e.res = "ok") = same(e.a, e.b) /\ e.res \in {"ok", "ValueError"})
    \cup (IF e.res # "ok" \/ ~same(e.a, e.c) THEN {} ELSE
            Clause("C13.there_and_back", Abs(e.back) <= 20)
            \cup Clause("C13.via", Abs(e.via) <= 20)
            \cup Clause("C13.ratio", Abs(e.ratio) <= 20)
            \cup Clause("C13.identity", e.ident)
            \cup Clause("C13.shape", e.shape)
            \cup Clause("C13.unit", e.unit)
            \cup Clause("C15.convert", e.unchanged))

\* Arithmetic.  Operands are x, y base amounts (mm, s, arcsec) in units of
\* size sx, sy; results are recorded in base units: sums and products
\* scaled by 1000, quotients by 10^6.
DivRound(a, b) == \* a / b rounded to the nearest integer, b # 0
    LET s == IF (a < 0) # (b < 0) THEN -1 ELSE 1 n == Abs(a) d == Abs(b) IN s * ((2 * n + d) \div (2 * d))
Near(a, b) == Abs(a - b) <= 2
Arith(e) ==
    LET x == e.x y == e.y sx == e.sx IN
    CASE e.f = "add"  -> Near(e.r, 1000 * (x + y))
      [] e.f = "sub"  -> Near(e.r, 1000 * (x - y))
      [] e.f = "neg"  -> Near(e.r, -1000 * x)
      [] e.f = "mul"  -> Near(e.r, 1000 * x * y)
      [] e.f = "div"  -> Near(e.r, DivRound(1000000 * x, y))
      \* with a plain number y
      [] e.f = "addn" -> Near(e.r, 1000 * (x + y * sx))
      [] e.f = "nadd" -> Near(e.r, 1000 * (x + y * sx))
      [] e.f = "subn" -> Near(e.r, 1000 * (x - y * sx))
      [] e.f = "nsub" -> Near(e.r, 1000 * (y * sx - x))
      [] e.f \in {"muln", "nmul"} -> Near(e.r, 1000 * x * y)
      [] e.f = "divn" -> Near(e.r, DivRound(1000000 * x, y))
      [] e.f = "ndiv" -> Near(e.r, DivRound(1000000 * y, x))
ArithClauses(e) ==
    Clause("C14.dimension", e.res = "ok")
    \cup Clause("C14.value", e.res = "ok" => Arith(e))
    \cup Clause("C15.arithmetic", e.unchanged)

\* Comparison of arrays (length 1 for scalars) of base amounts.
CompareClauses(e) ==
    IF e.dx # e.dy
    THEN Clause("C14.dimension_error", \A r \in Range(e.errs) : r = "ArithmeticError")
    ELSE Clause("C14.compare_defined", e.res = "ok" /\ Len(e.lt) = Len(e.x))
         \cup (IF e.res # "ok" \/ Len(e.lt) # Len(e.x) THEN {} ELSE
               Clause("C14.order", \A i \in 1..Len(e.x) :
                    /\ (e.x[i] < e.y[i]) => e.lt[i] /\ ~e.eq[i] /\ ~e.gt[i]
                    /\ (e.x[i] > e.y[i]) => ~e.lt[i] /\ ~e.eq[i] /\ e.gt[i]
                    /\ (e.x[i] = e.y[i] /\ e.ux = e.uy) => e.eq[i])
               \cup Clause("C14.trichotomy", \A i \in 1..Len(e.x) :
                    /\ (IF e.lt[i] THEN 1 ELSE 0) + (IF e.eq[i] THEN 1 ELSE 0) + (IF e.gt[i] THEN 1 ELSE 0) = 1
                    /\ e.le[i] = (e.lt[i] \/ e.eq[i]) /\ e.ge[i] = (e.gt[i] \/ e.eq[i]) /\ e.ne[i] = ~e.eq[i]))
         \cup Clause("C15.comparison", e.unchanged)
=============================================================================
