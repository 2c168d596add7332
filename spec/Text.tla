--------------------------------- MODULE Text --------------------------------
(* C26: the lines of a saved text file. C27: the ISO 6709 string of a location.*)
(* Strings are sequences of characters.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Clause(name, ok) == IF ok THEN {} ELSE {name}
Range(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Times(_, _)
Times(ch, n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN ch ELSE Times(ch, n \div 2) \o Times(ch, n - n \div 2)
\* ljust
Pad(s, w) == s \o Times(" ", w - Len(s))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
MaxLen(S) == CHOOSE n \in {Len(s) : s \in S} : \A s \in S : Len(s) <= n

\* ---- a table: columns [label, unit, entries]; unit "" stands for none
Label(c) == IF c.unit = "" THEN c.label ELSE c.label \o " (" \o c.unit \o ")"
Width(c) == MaxLen({Label(c)} \cup Range(c.entries))
Row(cols, widths, f(_)) == Join([i \in 1..Len(cols) |-> Pad(f(cols[i]), widths[i])], "\t")
Table(cols) ==
    IF cols = <<>> THEN <<>>
    ELSE LET widths == [i \in 1..Len(cols) |-> Width(cols[i])] IN
         <<Row(cols, widths, Label), Join([i \in 1..Len(cols) |-> Times("-", widths[i])], "\t")>>
         \o [j \in 1..Len(cols[1].entries) |-> Row(cols, widths, LAMBDA c : c.entries[j])]
\* ---- a layer: blocks separated by a blank line
Parameters(ps) == [i \in 1..Len(ps) |-> ps[i][1] \o ": " \o ps[i][2]]
Blocks(y) ==
    (IF y.sub = "" THEN <<>> ELSE <<<<y.sub>>>>)
    \o (IF y.params = <<>> THEN <<>> ELSE <<Parameters(y.params)>>)
    \o (IF y.cols = <<>> THEN <<>> ELSE <<Table(y.cols)>>)
Header(h) == IF h = "" THEN <<>> ELSE <<<<h, Times("=", Len(h))>>>>
RECURSIVE AllBlocks(_)
AllBlocks(ys) == IF ys = <<>> THEN <<>> ELSE Blocks(Head(ys)) \o AllBlocks(Tail(ys))
RECURSIVE Spread(_)
Spread(bs) == IF bs = <<>> THEN <<>> ELSE IF Len(bs) = 1 THEN bs[1] ELSE bs[1] \o <<"">> \o Spread(Tail(bs))
File(h, ys) == Spread(Header(h) \o AllBlocks(ys))

\* ---- file names
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
FileName(n) == IF EndsWith(n, ".txt") THEN n ELSE n \o ".txt"

\* ---- what the objects of the library save
Column(label, unit, entries) == [label |-> label, unit |-> unit, entries |-> entries]
Titles == [GCRS |-> "GCRS Coordinate Data", ITRS |-> "ITRS Coordinate Data", LVLH |-> "Satellite LVLH Coordinate Data",
           WGS84 |-> "WGS84 Coordinate Data", AzEl |-> "Azimuth-Elevation Coordinate Data", Attitude |-> "Attitude Coordinate Data",
           Satellite |-> "Satellite Position and Velocity",
           VisibleTimeWindow |-> "VisibleTimeWindow Data", ObservationWindow |-> "ObservationWindow Data"]
Columns(kind, vel) ==
    CASE kind \in {"GCRS", "ITRS", "LVLH"} -> <<"Time", "X", "Y", "Z">>
      [] kind = "WGS84" -> <<"Time", "Latitude", "Longitude", "Height">>
      [] kind = "AzEl" -> <<"Time", "Azimuth", "Elevation">>
      [] kind = "Attitude" -> <<"Time", "Roll", "Pitch", "Yaw">>
      [] kind = "Satellite" -> <<"Time", "Itrs X", "Itrs Y", "Itrs Z">> \o (IF vel THEN <<"Itrs VX", "Itrs VY", "Itrs VZ">> ELSE <<>>)
                               \o <<"Gcrs X", "Gcrs Y", "Gcrs Z">> \o (IF vel THEN <<"Gcrs VX", "Gcrs VY", "Gcrs VZ">> ELSE <<>>)
      [] kind = "VisibleTimeWindow" -> <<"Rise Time", "Set Time">>
      [] kind = "ObservationWindow" -> <<"Start Time", "Duration", "Location", "Roll", "Pitch", "Yaw">>
\* x: the kind, with velocity or not, units and formatted entries by label, the location's string
ObjectLayer(x) ==
    [sub |-> "", params |-> IF x.kind \in {"AzEl", "Attitude"} THEN <<<<"Location", x.place>>>> ELSE <<>>,
     cols |-> LET n == Columns(x.kind, x.vel) IN [i \in 1..Len(n) |-> Column(n[i], x.units[n[i]], x.entries[n[i]])]]

\* ---- ISO 6709
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN Digit[n + 1] ELSE Digits(n \div 10) \o Digit[(n % 10) + 1]
Two(n) == IF n < 10 THEN "0" \o Digits(n) ELSE Digits(n)
\* c hundredths: whole and two decimals
Decimals(c) == Digits(c \div 100) \o "." \o Two(c % 100)
\* an angle of c hundredths of an arcsecond; the symbols of degree, minute and
\* second (U+00B0, U+2032, U+2033) are
\* written ^ ` |
Sexagesimal(c) ==
    LET s == c % 6000 m == (c \div 6000) % 60 d == c \div 360000 IN
    Two(d) \o "^" \o Two(m) \o "`" \o Two(s \div 100) \o "." \o Two(s % 100) \o "|"
\* the hundredths within half of one of x thousandths
Hundredths(x) == {c \in ((Abs(x) \div 10) - 1)..((Abs(x) \div 10) + 1) : c >= 0 /\ Abs(10 * c - Abs(x)) <= 5}
\* zero counts as plus: the equator is North, the prime meridian East
Sides(x, c, plus, minus) == IF x = 0 THEN {plus} ELSE IF c = 0 THEN {plus, minus} ELSE IF x >= 0 THEN {plus} ELSE {minus}
AngleStrings(x, plus, minus) == UNION {{Sexagesimal(c) \o s : s \in Sides(x, c, plus, minus)} : c \in Hundredths(x)}
HeightStrings(x, unit) == UNION {{s \o Decimals(c) \o unit : s \in Sides(x, c, "", "-")} : c \in Hundredths(x)}
\* lat and lon in thousandths of an arcsecond, height in thousandths of its unit
Iso(lat, lon, h, unit) == {a \o " " \o b \o " " \o c : a \in AngleStrings(lat, "N", "S"), b \in AngleStrings(lon, "E", "W"), c \in HeightStrings(h, unit)}

EventClauses(e) ==
    CASE e.op = "crash" -> {e.prop \o ".crash"}
      [] e.op = "file" -> Clause("C26.lines", e.lines = File(e.header, e.layers)) \cup Clause("C26.name", Range(e.made) = {FileName(e.name)})
      [] e.op = "object" -> Clause("C26." \o e.x.kind, e.lines = File(Titles[e.x.kind], <<ObjectLayer(e.x)>>))
                            \cup Clause("C26.name", Range(e.made) = {FileName(e.name)})
      [] e.op = "iso" -> Clause("C27.latitude", e.words[1] \in AngleStrings(e.lat, "N", "S"))
                         \cup Clause("C27.longitude", e.words[2] \in AngleStrings(e.lon, "E", "W"))
                         \cup Clause("C27.height", e.words[3] \in HeightStrings(e.h, e.unit))
                         \cup Clause("C27.string", e.s \in Iso(e.lat, e.lon, e.h, e.unit))
=============================================================================
