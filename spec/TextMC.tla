-------------------------------- MODULE TextMC -------------------------------
(* Facts about the layout and the strings by themselves: a reader of the file  *)
(* finds every entry again; decoding an ISO string returns the angle.         *)
EXTENDS Text
CONSTANTS COUNT
VARIABLES n
Init == n \in 0..COUNT
Next == FALSE /\ UNCHANGED n
Spec == Init /\ [][Next]_n
Words == <<"a", "bb", "ccc", "-1.50", "", "12345678">>
W(i) == Words[(i % 6) + 1]
cols == [i \in 1..((n % 3) + 1) |-> Column(W(n + i), IF (n \div 3) % 2 = 0 THEN "" ELSE "km", [j \in 1..(((n \div 6) % 3) + 1) |-> W((n \div 18) + i * j)])]
t == Table(cols)
\* reader: the text between the tabs of a line, without trailing blanks
RECURSIVE Cells(_, _, _)
Cells(s, i, acc) == IF i > Len(s) THEN <<acc>> ELSE
    IF SubSeq(s, i, i) = "\t" THEN <<acc>> \o Cells(s, i + 1, "") ELSE Cells(s, i + 1, acc \o SubSeq(s, i, i))
RECURSIVE Strip(_)
Strip(s) == IF s = "" THEN s ELSE IF SubSeq(s, Len(s), Len(s)) = " " THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Readable == \A j \in 1..Len(cols[1].entries) :
    LET cells == Cells(t[2 + j], 1, "") IN
    Len(cells) = Len(cols) /\ \A i \in 1..Len(cols) : Strip(cells[i]) = cols[i].entries[j]
Aligned == \A j \in 1..Len(t) : Len(t[j]) = Len(t[1]) /\ \A p \in 1..Len(t[1]) : (SubSeq(t[j], p, p) = "\t") <=> (SubSeq(t[1], p, p) = "\t")
\* layers: single blank lines only, never first or last
y == [sub |-> W(n), params |-> IF n % 2 = 0 THEN <<>> ELSE <<<<"p", "q">>, <<"r", "s">>>>, cols |-> IF n % 5 = 0 THEN <<>> ELSE cols]
Single == LET f == File(IF n % 7 = 0 THEN "" ELSE "Title", <<y, y>>) IN
    /\ \A i \in 1..(Len(f) - 1) : ~(f[i] = "" /\ f[i + 1] = "")
    /\ (f # <<>> => f[1] # "" /\ f[Len(f)] # "")
Name == EndsWith(FileName(W(n)), ".txt") /\ FileName(FileName(W(n))) = FileName(W(n))
\* decode: digits of the string
Val(ch) == (CHOOSE d \in 1..10 : Digit[d] = ch) - 1
RECURSIVE Number(_, _, _)
Number(s, i, acc) == IF i > Len(s) \/ SubSeq(s, i, i) \notin Range(Digit) THEN <<acc, i>> ELSE Number(s, i + 1, 10 * acc + Val(SubSeq(s, i, i)))
Decode(s) == LET d == Number(s, 1, 0) m == Number(s, d[2] + 1, 0) w == Number(s, m[2] + 1, 0) f == Number(s, w[2] + 1, 0) IN
    IF m[1] > 59 \/ w[1] > 59 THEN -1 ELSE ((d[1] * 60 + m[1]) * 60 + w[1]) * 100 + f[1]
c == (n * 35993 + n) % 64800001
Decodes == Decode(Sexagesimal(c)) = c /\ Decode(Sexagesimal(6000 * n + 5999)) = 6000 * n + 5999
Nearest == \A x \in {10 * n + 4, -(10 * n + 5), 10 * n} : Hundredths(x) # {} /\ Cardinality(Hundredths(x)) <= 2
=============================================================================
