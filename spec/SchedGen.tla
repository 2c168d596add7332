------------------------------- MODULE SchedGen ------------------------------
(***************************************************************************)
(* Random instances and operation histories of the scheduling container,   *)
(* generated with TLC -simulate and replayed into the implementation.      *)
(* One unit of time is a day / 2^u, with u drawn for each instance, so that *)
(* windows last from seconds to weeks.  Operators taking random values have a *)
(* parameter so that TLC evaluates them anew at each use.                  *)
(***************************************************************************)
EXTENDS Scheduling, Json, IOUtils, Randomization

VARIABLES S, hist, depth, free, u

Rnd(a, b) == RandomElement(a..b)
RandWin(x) == LET r == Rnd(0, 44) len == IF Rnd(1, 5) = 1 THEN 2 * Rnd(10, 40) ELSE 2 * Rnd(1 + 0 * x, 14) IN [rise |-> r, set |-> r + len, ps |-> <<>>]
\* a window with pitch samples every second unit; monotone, or with a bump
RandLookWin(x) ==
    LET r == Rnd(0, 44) n == Rnd(2 + 0 * x, 8) d == RandomElement({-1, 1})
        a == Rnd(1, 6) b == Rnd(-18, 18) bump == Rnd(0, 5) at == Rnd(1, 9) IN
    [rise |-> r, set |-> r + 2 * n,
     ps |-> [i \in 1..(n + 1) |-> <<r + 2 * (i - 1),
              2 * d * (a * (2 * i - n) + b) + (IF bump = 0 /\ i = at THEN 30 * d ELSE 0)>>]]
RECURSIVE RandSeq(_, _)
RandSeq(n, look) == IF n = 0 THEN <<>>
    ELSE <<IF look THEN RandLookWin(n) ELSE RandWin(n)>> \o RandSeq(n - 1, look)
Distinct(ws) == \A i, j \in 1..Len(ws) : i # j => <<ws[i].rise, ws[i].set>> # <<ws[j].rise, ws[j].set>>
RandReq(n) ==
    LET look == Rnd(1, 4) = 1
        many == Rnd(1, 18) = 1      \* more windows than most passes, few of them long enough
        ws == RandSeq(IF many THEN Rnd(11, 15) ELSE Rnd(0 * n, 4), look) IN
    [dl |-> IF Rnd(1, 3) = 1 THEN Rnd(8, 60) ELSE 200, dur |-> IF many \/ Rnd(1, 8) = 1 THEN Rnd(9, 20) ELSE Rnd(1, 8), pri |-> IF Rnd(1, 12) = 1 THEN Rnd(0, 12) - 12 ELSE IF Rnd(1, 3) = 1 THEN Rnd(0, 24) ELSE 4 * Rnd(1, 6),
     q |-> IF Rnd(1, 3) = 1 THEN Rnd(6, 10) ELSE Rnd(1, 6),
     look |-> IF look THEN (IF Rnd(1, 4) = 1 THEN 0 ELSE 2 * Rnd(-14, 14) + 1) ELSE NoLook,
     wins |-> IF Distinct(ws) THEN ws ELSE <<>>]
RECURSIVE RandInst(_)
RandInst(n) == IF n = 0 THEN <<>> ELSE <<RandReq(n)>> \o RandInst(n - 1)

Ins == {"greedy", "minopp", "minconf"}
\* a request scheduled by hand, possibly one that is scheduled already, for any duration
Manual(r) ==
    IF S[r].wins = <<>> THEN [op |-> "evaluate"]
    ELSE [op |-> "schedule", r |-> r, w |-> Rnd(1, Len(S[r].wins)), st |-> Rnd(0, 60),
          du |-> IF Rnd(1, 2) = 1 THEN S[r].dur ELSE Rnd(1, 20)]
GenOp(x) ==
    LET n == Len(S) c == Rnd(1 + 0 * x, 22) IN
    CASE c <= 6  -> [op |-> RandomElement(Ins), k |-> IF Rnd(1, 2) = 1 THEN n ELSE Rnd(0, n)]
      [] c = 7   -> [op |-> "initialize", k |-> n]
      [] c <= 12 -> [op |-> RandomElement(Removals), k |-> IF Rnd(1, 6) = 1 THEN n ELSE Rnd(0, 2)]
      [] c <= 16 -> [op |-> RandomElement(Sorts)]
      [] c = 17  -> [op |-> "unschedule", r |-> Rnd(1, n)]
      [] c = 18  -> [op |-> "evaluate"]
      [] c = 19  -> [op |-> "iterate"]
      [] c = 20  -> IF free THEN Manual(Rnd(1, n)) ELSE [op |-> "evaluate"]
      [] OTHER   -> [op |-> RandomElement({"unschedule", "unschedule_all", "initialize"}), r |-> Rnd(1, n), k |-> n]
GenInit == u = 10 /\ S = <<>> /\ hist = <<>> /\ depth = 0 /\ free = FALSE
GenNext ==
    /\ depth <= 16
    /\ depth' = depth + 1
    /\ IF S = <<>> THEN S' = RandInst(IF Rnd(1, 30) = 1 THEN Rnd(10, 22) ELSE Rnd(1, 7)) /\ hist' = hist /\ free' = (Rnd(1, 4) = 1) /\ u' = RandomElement({0, 4, 10, 10, 14})
       ELSE /\ hist' = Append(hist, IF free /\ Rnd(1, 4) = 1 THEN Manual(Rnd(1, Len(S))) ELSE GenOp(depth)) /\ S' = S /\ free' = free /\ u' = u
            /\ IF depth = 16 THEN PrintT("GEN " \o ToJson([S |-> S, free |-> free, u |-> u, ops |-> hist'])) ELSE TRUE
GenSpec == GenInit /\ [][GenNext]_<<S, hist, depth, free, u>>
=============================================================================
