----------------------------- MODULE CalendarMC -----------------------------
(* The calendar's own laws, checked for every day of Days: TLC visits each  *)
(* day once.                                                                *)
EXTENDS Calendar
CONSTANTS From, To
VARIABLE n
Init == n = From
Next == n < To /\ n' = n + 1
Spec == Init /\ [][Next]_n
Laws == /\ RoundTrip(n) /\ NextDay(n) /\ TextBack(n) /\ WeeksAgree(n)
        /\ \A k \in {1, 11, 12, 13, 48} : MonthsBack(n, k)
        /\ \A k \in {1, 7, 12, 25} : LET d == Date(n) IN
             /\ TsDiff("MONTH", d, AddMonths(d, k)) \in {Num(k), Num(k - 1)}      \* a shorter month ends before the month is over
             /\ CivilOf(n)[3] <= 28 => TsDiff("MONTH", d, AddMonths(d, k)) = Num(k)
             /\ TsDiff("MONTH", AddMonths(d, k), d) = Num(-TsDiff("MONTH", d, AddMonths(d, k))[2])
        /\ (WDay(n + 1) = (WDay(n) + 1) % 7) /\ WeekOf(n) \in 0..53 /\ WeekMon(n) \in 0..53
=============================================================================
