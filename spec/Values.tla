------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* SQL values as syncany-sql exposes them to a user, encoded uniformly so  *)
(* TLC can compare any two of them: <<tag, num, den, seq>>.                *)
(*   tag 0  NULL                                                           *)
(*   tag 1  exact number num/den (den > 0, reduced)                        *)
(*   tag 2  text, seq = code points                                        *)
(*   tag 3  list of values, seq = the values                               *)
(*   tag 4, 5, 6  date, datetime, time of day (Calendar.tla)                *)
(*   tag 9  anything the harness could not project (never equal to a       *)
(*          value the specification computes)                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NULL    == <<0, 0, 1, <<>>>>
Num(n)  == <<1, n, 1, <<>>>>
Txt(s)  == <<2, 0, 1, s>>
Lst(s)  == <<3, 0, 1, s>>
TRUEV   == Num(1)
FALSEV  == Num(0)
Bool(b) == IF b THEN TRUEV ELSE FALSEV

IsNull(v) == v[1] = 0
IsNum(v)  == v[1] = 1
IsTxt(v)  == v[1] = 2

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) ==
  LET s == IF d < 0 THEN -1 ELSE 1
      g == Gcd(Abs(n), Abs(d))
  IN IF n = 0 THEN Num(0) ELSE <<1, s * (n \div g), (s * d) \div g, <<>>>>

(* n \div g with n negative is exact here because g divides n *)

(*------------------------------ ordering -------------------------------*)
RECURSIVE SeqCmp(_, _)
SeqCmp(a, b) ==          \* lexicographic on code points: -1, 0, 1
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
  ELSE IF b = <<>> THEN 1
  ELSE IF a[1] < b[1] THEN -1
  ELSE IF a[1] > b[1] THEN 1
  ELSE SeqCmp(Tail(a), Tail(b))

Cmp(a, b) ==             \* both non-null, same kind
  IF IsNum(a) /\ IsNum(b)
  THEN LET l == a[2] * b[3]
           r == b[2] * a[3]
       IN IF l < r THEN -1 ELSE IF l > r THEN 1 ELSE 0
  ELSE IF a[1] \in {4, 5, 6}
  THEN SeqCmp(<<a[2], a[3]>>, <<b[2], b[3]>>)
  ELSE SeqCmp(a[4], b[4])

OrdCmp(a, b) ==          \* total order used by ORDER BY: NULL is smallest
  IF IsNull(a) THEN (IF IsNull(b) THEN 0 ELSE -1)
  ELSE IF IsNull(b) THEN 1
  ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE Cmp(a, b)

(*------------------------ three valued logic ---------------------------*)
Truth(v) == ~IsNull(v) /\ ~(IsNum(v) /\ v[2] = 0) /\ ~(IsTxt(v) /\ v[4] = <<>>)
Not3(v)  == IF IsNull(v) THEN NULL ELSE Bool(~Truth(v))
And3(a, b) == IF ~IsNull(a) /\ ~Truth(a) THEN FALSEV
              ELSE IF ~IsNull(b) /\ ~Truth(b) THEN FALSEV
              ELSE IF IsNull(a) \/ IsNull(b) THEN NULL ELSE TRUEV
Or3(a, b)  == IF Truth(a) \/ Truth(b) THEN TRUEV
              ELSE IF IsNull(a) \/ IsNull(b) THEN NULL ELSE FALSEV

(* What AND and OR compute here (named deviation AndOrShort): the same truth
   value as And3/Or3, but the last operand's own value instead of 0/1/NULL.
   AndOrSound below (checked by TLC, Checks.tla) is why a WHERE cannot tell
   the difference unless it negates it.                                     *)
AndShort(a, b) == IF Truth(a) THEN b ELSE FALSEV
OrShort(a, b)  == IF Truth(a) THEN TRUEV ELSE b
AndOrSound(V) == \A a \in V, b \in V : /\ Truth(AndShort(a, b)) = Truth(And3(a, b))
                                        /\ Truth(OrShort(a, b)) = Truth(Or3(a, b))

Cmp3(o, a, b) ==
  IF IsNull(a) \/ IsNull(b) THEN NULL
  ELSE LET c == Cmp(a, b) IN
       CASE o = "="  -> Bool(c = 0)
         [] o = "!=" -> Bool(c # 0)
         [] o = "<"  -> Bool(c < 0)
         [] o = "<=" -> Bool(c <= 0)
         [] o = ">"  -> Bool(c > 0)
         [] o = ">=" -> Bool(c >= 0)

(* How a source filters  column <op> constant  it was handed by the planner:
   the in-memory and file drivers of the syncany library order NULL before
   every other value (named deviation LoaderNull; the library is not part of
   this repository), let  <=  NULL hold for every value, and cut the fraction
   off a constant an integer is compared with by = or != (EQ-FRACTION).     *)
Trunc(v) == Num(IF v[2] < 0 THEN -((-v[2]) \div v[3]) ELSE v[2] \div v[3])
LoaderCmp(o, a, b) ==
  LET c == OrdCmp(a, b)
      e == IF IsNum(a) /\ IsNum(b) /\ a[3] = 1 THEN OrdCmp(a, Trunc(b)) ELSE c
  IN
  CASE o = "="  -> Bool(e = 0)
    [] o = "!=" -> Bool(e # 0)
    [] o = "<"  -> Bool(c < 0)
    [] o = "<=" -> Bool(c <= 0 \/ IsNull(b))
    [] o = ">"  -> Bool(c > 0)
    [] o = ">=" -> Bool(c >= 0)

RECURSIVE In3(_, _)
In3(a, s) ==             \* a IN (s[1], ..., s[n])
  IF s = <<>> THEN FALSEV ELSE Or3(Cmp3("=", a, Head(s)), In3(a, Tail(s)))

(*---------------------------- arithmetic -------------------------------*)
FloorDiv(x, y) == IF y < 0 THEN (-x) \div (-y) ELSE x \div y
Arith(o, a, b) ==
  IF IsNull(a) \/ IsNull(b) THEN NULL
  ELSE CASE o = "+" -> Rat(a[2] * b[3] + b[2] * a[3], a[3] * b[3])
         [] o = "-" -> Rat(a[2] * b[3] - b[2] * a[3], a[3] * b[3])
         [] o = "*" -> Rat(a[2] * b[2], a[3] * b[3])
         [] o = "/" -> IF b[2] = 0 THEN NULL ELSE Rat(a[2] * b[3], a[3] * b[2])
         [] o = "%" -> IF b[2] = 0 THEN NULL     \* the result has the divisor's sign (as in Python)
                       ELSE LET q == FloorDiv(a[2] * b[3], a[3] * b[2])
                            IN Rat(a[2] * b[3] - q * a[3] * b[2], a[3] * b[3])

(*------------------------------ LIKE -----------------------------------*)
Fold(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c      \* LIKE ignores ASCII case
RECURSIVE LikeSeq(_, _)
LikeSeq(s, p) ==         \* 37 is %, 95 is _
  IF p = <<>> THEN s = <<>>
  ELSE IF p[1] = 37 THEN LikeSeq(s, Tail(p)) \/ (s # <<>> /\ LikeSeq(Tail(s), p))
  ELSE s # <<>> /\ (p[1] = 95 \/ Fold(p[1]) = Fold(s[1])) /\ LikeSeq(Tail(s), Tail(p))
Like3(a, p) == IF IsNull(a) \/ IsNull(p) THEN NULL ELSE Bool(LikeSeq(a[4], p[4]))

(*------------------------- sequences / bags ----------------------------*)
RangeOf(s) == {s[i] : i \in DOMAIN s}
CountOf(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
BagEq(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in RangeOf(a) : CountOf(x, a) = CountOf(x, b)
BagLeq(a, b)  == \A x \in RangeOf(a) : CountOf(x, a) <= CountOf(x, b)
MapSeq(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]
FilterSeq(s, Test(_)) == SelectSeq(s, Test)
RECURSIVE DedupSeq(_)
DedupSeq(s) ==           \* keeps the first occurrence
  IF s = <<>> THEN <<>>
  ELSE LET r == DedupSeq(SubSeq(s, 1, Len(s) - 1)) IN
       IF \E i \in DOMAIN r : r[i] = s[Len(s)] THEN r ELSE Append(r, s[Len(s)])
FoldS(Op(_, _), acc, s) == FoldLeft(Op, acc, s)
(* stable sort: equal elements keep their order because the position breaks ties *)
SortSeq2(s, Less(_, _)) ==
  LET idx == SortSeq([i \in DOMAIN s |-> i],
                     LAMBDA i, j : Less(s[i], s[j]) \/ (~Less(s[j], s[i]) /\ i < j))
  IN [i \in DOMAIN s |-> s[idx[i]]]
=============================================================================
