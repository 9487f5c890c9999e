------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Dates, datetimes and times of day as values:                            *)
(*   <<4, d, 1, <<>>>>  the date d days after 1970-01-01                   *)
(*   <<5, d, s, <<>>>>  second s of that date                              *)
(*   <<6, s, 1, <<>>>>  second s of a day                                  *)
(* and the functions on them.  All of one time zone; microseconds are not  *)
(* modelled.                                                               *)
(***************************************************************************)
EXTENDS Values

Date(d)  == <<4, d, 1, <<>>>>
DTime(n, s) == <<5, n + FloorDiv(s, 86400), s - 86400 * FloorDiv(s, 86400), <<>>>>
TimeV(s) == <<6, s, 1, <<>>>>
IsDate(v) == v[1] = 4
IsDT(v)   == v[1] = 5
IsTime(v) == v[1] = 6

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28)
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31
DaysOf(y, m, d) ==       \* days after 1970-01-01
  LET z == IF m <= 2 THEN y - 1 ELSE y
      e == z \div 400
      w == z - 400 * e
      p == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
  IN e * 146097 + w * 365 + w \div 4 - w \div 100 + p - 719468
CivilOf(n) ==            \* <<year, month, day>>
  LET z == n + 719468
      e == z \div 146097
      q == z - e * 146097
      w == (q - q \div 1460 + q \div 36524 - q \div 146096) \div 365
      p == q - (365 * w + w \div 4 - w \div 100)
      t == (5 * p + 2) \div 153
      m == IF t < 10 THEN t + 3 ELSE t - 9
  IN <<w + 400 * e + (IF m <= 2 THEN 1 ELSE 0), m, p - (153 * t + 2) \div 5 + 1>>
Valid(y, m, d) == m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= MonthDays(y, m)

(*------------------------------- texts ----------------------------------*)
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE Nat10(_)
Nat10(s) == IF s = <<>> THEN 0 ELSE 10 * Nat10(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48
Cut(s, a, b) == SubSeq(s, a, b)
Shape(s, p) == Len(s) = Len(p) /\ \A i \in DOMAIN p : IF p[i] = 48 THEN IsDigit(s[i]) ELSE s[i] = p[i]
D8 == <<48, 48, 48, 48, 45, 48, 48, 45, 48, 48>>              \* 0000-00-00
T6 == <<48, 48, 58, 48, 48, 58, 48, 48>>                      \* 00:00:00
ParseTime(s) == IF Shape(s, T6) /\ Nat10(Cut(s, 1, 2)) < 24 /\ Nat10(Cut(s, 4, 5)) < 60 /\ Nat10(Cut(s, 7, 8)) < 60
                THEN Nat10(Cut(s, 1, 2)) * 3600 + Nat10(Cut(s, 4, 5)) * 60 + Nat10(Cut(s, 7, 8)) ELSE -1
ParseDay(s) == LET y == Nat10(Cut(s, 1, 4))
                   m == Nat10(Cut(s, 6, 7))
                   d == Nat10(Cut(s, 9, 10))
               IN IF Shape(s, D8) /\ y >= 1 /\ Valid(y, m, d) THEN Date(DaysOf(y, m, d)) ELSE NULL
ParseDT(s) ==            \* YYYY-MM-DD, optionally with a time of day
  IF Len(s) = 10 THEN LET d == ParseDay(s) IN IF IsNull(d) THEN NULL ELSE DTime(d[2], 0)
  ELSE IF Len(s) = 19 /\ s[11] \in {32, 84}
       THEN LET d == ParseDay(Cut(s, 1, 10))
                t == ParseTime(Cut(s, 12, 19))
            IN IF IsNull(d) \/ t < 0 THEN NULL ELSE DTime(d[2], t)
  ELSE NULL

Pad(n, w) == LET RECURSIVE P(_, _)
                 P(k, i) == IF i = 0 THEN <<>> ELSE P(k \div 10, i - 1) \o <<48 + (k % 10)>>
             IN P(n, w)
DayText(n)  == LET c == CivilOf(n) IN Pad(c[1], 4) \o <<45>> \o Pad(c[2], 2) \o <<45>> \o Pad(c[3], 2)
TimeText(s) == Pad(s \div 3600, IF s >= 360000 THEN 3 ELSE 2) \o <<58>> \o Pad((s % 3600) \div 60, 2) \o <<58>> \o Pad(s % 60, 2)
DText(v) == IF IsDate(v) THEN DayText(v[2])
            ELSE IF IsTime(v) THEN TimeText(v[2])
            ELSE DayText(v[2]) \o <<32>> \o TimeText(v[3])

(*------------------------------ functions -------------------------------*)
(* what a function that takes a date makes of its argument: a text is read, *)
(* an unreadable one is NULL                                                *)
Read(v)   == IF IsTxt(v) THEN ParseDT(v[4]) ELSE v
ToDate(v) == LET x == Read(v) IN IF IsDT(x) THEN Date(x[2]) ELSE IF IsDate(x) THEN x ELSE NULL
ToDT(v)   == LET x == Read(v) IN IF IsDate(x) THEN DTime(x[2], 0) ELSE IF IsDT(x) THEN x ELSE NULL
ToTime(v) == LET x == Read(v) IN IF IsDT(x) THEN TimeV(x[3]) ELSE IF IsDate(x) THEN TimeV(0) ELSE IF IsTime(x) THEN x ELSE NULL

YearDay(n) == n - DaysOf(CivilOf(n)[1], 1, 1)                  \* from 0
WDay(n)    == (n + 3) % 7                                     \* Monday is 0
WeekOf(n)  == (YearDay(n) + 7 - ((WDay(n) + 1) % 7)) \div 7    \* weeks start on Sunday, the days before the first Sunday are week 0
WeekMon(n) == LET j == WDay(n - YearDay(n)) IN (YearDay(n) + j) \div 7 + (IF j <= 3 THEN 1 ELSE 0)   \* mode 1: from Monday, the first has more than three days
YearWeek(n)  == LET y == CivilOf(n)[1] IN
                IF WeekOf(n) > 0 THEN y * 100 + WeekOf(n) ELSE (y - 1) * 100 + WeekOf(n - YearDay(n) - 1)
YearWeek1(n) == LET t == n - WDay(n) + 3 IN CivilOf(t)[1] * 100 + YearDay(t) \div 7 + 1               \* the week of its Thursday
DayNames   == <<<<77, 111, 110, 100, 97, 121>>, <<84, 117, 101, 115, 100, 97, 121>>, <<87, 101, 100, 110, 101, 115, 100, 97, 121>>,
                <<84, 104, 117, 114, 115, 100, 97, 121>>, <<70, 114, 105, 100, 97, 121>>, <<83, 97, 116, 117, 114, 100, 97, 121>>,
                <<83, 117, 110, 100, 97, 121>>>>
MonthNames == <<<<74, 97, 110, 117, 97, 114, 121>>, <<70, 101, 98, 114, 117, 97, 114, 121>>, <<77, 97, 114, 99, 104>>, <<65, 112, 114, 105, 108>>,
                <<77, 97, 121>>, <<74, 117, 110, 101>>, <<74, 117, 108, 121>>, <<65, 117, 103, 117, 115, 116>>,
                <<83, 101, 112, 116, 101, 109, 98, 101, 114>>, <<79, 99, 116, 111, 98, 101, 114>>,
                <<78, 111, 118, 101, 109, 98, 101, 114>>, <<68, 101, 99, 101, 109, 98, 101, 114>>>>

(* a date stays a date unless hours, minutes or seconds are added; the day  *)
(* of a month that is too short becomes the month's last day                *)
AddMonths(x, k) ==
  LET c == CivilOf(x[2])
      t == c[1] * 12 + c[2] - 1 + k
      y == t \div 12
      m == (t % 12) + 1
      d == IF c[3] > MonthDays(y, m) THEN MonthDays(y, m) ELSE c[3]
  IN <<x[1], DaysOf(y, m, d), x[3], <<>>>>
AddDays(x, k) == <<x[1], x[2] + k, x[3], <<>>>>
AddSecs(x, k) == IF IsDate(x) THEN DTime(x[2], k) ELSE DTime(x[2], x[3] + k)
AddUnit(u, v, k) ==
  LET x == Read(v) IN
  IF IsNull(x) THEN NULL
  ELSE CASE u = "YEAR" -> AddMonths(x, 12 * k)
         [] u = "QUARTER" -> AddMonths(x, 3 * k)
         [] u = "MONTH" -> AddMonths(x, k)
         [] u = "WEEK" -> AddDays(x, 7 * k)
         [] u = "DAY" -> AddDays(x, k)
         [] u = "HOUR" -> AddSecs(x, 3600 * k)
         [] u = "MINUTE" -> AddSecs(x, 60 * k)
         [] u = "SECOND" -> AddSecs(x, k)
UnitMonths(u) == CASE u = "YEAR" -> 12 [] u = "QUARTER" -> 3 [] u = "MONTH" -> 1 [] OTHER -> 0
Months(a, b) ==          \* whole months from <<day, second>> a to b, which is not before it
  LET c == CivilOf(a[1])
      e == CivilOf(b[1])
  IN (e[1] - c[1]) * 12 + e[2] - c[2] - (IF e[3] < c[3] \/ (e[3] = c[3] /\ b[2] < a[2]) THEN 1 ELSE 0)
UnitsIn(u, a, b) ==      \* whole units from a to b, which is not before it
  LET d == b[1] - a[1] - (IF b[2] < a[2] THEN 1 ELSE 0)
      s == b[2] - a[2] + (IF b[2] < a[2] THEN 86400 ELSE 0)
  IN CASE u = "WEEK" -> d \div 7
       [] u = "DAY" -> d
       [] u = "HOUR" -> d * 24 + s \div 3600
       [] u = "MINUTE" -> d * 1440 + s \div 60
       [] u = "SECOND" -> d * 86400 + s
       [] OTHER -> Months(a, b) \div UnitMonths(u)
TsDiff(u, a, b) ==       \* cut, not rounded
  LET x == ToDT(a)
      y == ToDT(b)
      f == <<x[2], x[3]>>
      g == <<y[2], y[3]>>
  IN IF IsNull(x) \/ IsNull(y) THEN NULL
     ELSE IF f[1] < g[1] \/ (f[1] = g[1] /\ f[2] <= g[2]) THEN Num(UnitsIn(u, f, g)) ELSE Num(-UnitsIn(u, g, f))

(* the fields of a text interval: [d ]h:m:s, added (sg = 1) or subtracted *)
AddTime(v, d, h, m, s, sg) == LET x == Read(v) IN IF IsNull(x) THEN NULL ELSE AddSecs(AddDays(x, sg * d), sg * (h * 3600 + m * 60 + s))

Three(s) == SubSeq(s, 1, 3)
Format(x, c) ==          \* one % item of DATE_FORMAT, named as strftime names it
  LET n == x[2]
      s == IF IsDT(x) THEN x[3] ELSE 0
      cv == CivilOf(n)
  IN CASE c = 89 -> Pad(cv[1], 4)                       \* Y
       [] c = 121 -> Pad(cv[1] % 100, 2)                \* y
       [] c = 109 -> Pad(cv[2], 2)                      \* m
       [] c = 100 -> Pad(cv[3], 2)                      \* d
       [] c = 72 -> Pad(s \div 3600, 2)                 \* H
       [] c = 77 -> Pad((s % 3600) \div 60, 2)          \* M
       [] c = 83 -> Pad(s % 60, 2)                      \* S
       [] c = 106 -> Pad(YearDay(n) + 1, 3)             \* j
       [] c = 85 -> Pad(WeekOf(n), 2)                   \* U
       [] c = 97 -> Three(DayNames[WDay(n) + 1])        \* a
       [] c = 65 -> DayNames[WDay(n) + 1]               \* A
       [] c = 98 -> Three(MonthNames[cv[2]])            \* b
       [] c = 66 -> MonthNames[cv[2]]                   \* B
       [] c = 119 -> Pad((WDay(n) + 1) % 7, 1)          \* w
       [] c = 37 -> <<37>>
RECURSIVE FormatSeq(_, _)
FormatSeq(x, f) == IF f = <<>> THEN <<>>
                   ELSE IF f[1] = 37 /\ Len(f) > 1 THEN Format(x, f[2]) \o FormatSeq(x, SubSeq(f, 3, Len(f)))
                   ELSE <<f[1]>> \o FormatSeq(x, Tail(f))

(* a number of a date: field f of v, NULL for what is no date *)
Field(f, v) ==
  LET x == Read(v)
      n == x[2]
      c == CivilOf(n)
  IN IF ~IsDate(x) /\ ~IsDT(x) THEN NULL
     ELSE CASE f = "year" -> Num(c[1])
            [] f = "month" -> Num(c[2])
            [] f = "dayofmonth" -> Num(c[3])
            [] f = "dayofyear" -> Num(YearDay(n) + 1)
            [] f = "weekday" -> Num(WDay(n))
            [] f = "dayofweek" -> Num(((WDay(n) + 1) % 7) + 1)
            [] f = "week" -> Num(WeekOf(n))
            [] f = "yearweek" -> Num(YearWeek(n))
            [] f = "week1" -> Num(WeekMon(n))
            [] f = "yearweek1" -> Num(YearWeek1(n))
            [] f = "dayname" -> Txt(DayNames[WDay(n) + 1])
            [] f = "monthname" -> Txt(MonthNames[c[2]])
            [] f = "unix_timestamp" -> Num(n * 86400 + (IF IsDT(x) THEN x[3] ELSE 0))

DateFuncs == {"year", "month", "dayofmonth", "dayofyear", "weekday", "dayofweek", "week", "yearweek", "week1", "yearweek1", "dayname", "monthname", "unix_timestamp"}
Units == <<"YEAR", "QUARTER", "MONTH", "WEEK", "DAY", "HOUR", "MINUTE", "SECOND">>

(* lemmas, checked by TLC over a range of days (CalendarMC) *)
RoundTrip(n)  == LET c == CivilOf(n) IN Valid(c[1], c[2], c[3]) /\ DaysOf(c[1], c[2], c[3]) = n
NextDay(n)    == LET a == CivilOf(n)
                     b == CivilOf(n + 1)
                 IN b = IF a[3] < MonthDays(a[1], a[2]) THEN <<a[1], a[2], a[3] + 1>>
                        ELSE IF a[2] < 12 THEN <<a[1], a[2] + 1, 1>> ELSE <<a[1] + 1, 1, 1>>
MonthsBack(n, k) == LET d == Date(n) IN CivilOf(n)[3] <= 28 => AddMonths(AddMonths(d, k), -k) = d
TextBack(n)   == ParseDay(DayText(n)) = Date(n)
WeeksAgree(n) == WeekMon(n) > 0 => (YearWeek1(n) = CivilOf(n)[1] * 100 + WeekMon(n) \/ YearWeek1(n) % 100 = 1)
=============================================================================
