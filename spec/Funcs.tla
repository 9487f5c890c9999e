------------------------------- MODULE Funcs --------------------------------
(***************************************************************************)
(* The scalar function library: Fn(name, <<v1, ..., vn>>) is the value of  *)
(* NAME(v1, ..., vn).  Texts are sequences of code points.  Unless a       *)
(* function says otherwise a NULL argument makes the result NULL.          *)
(***************************************************************************)
EXTENDS Docs

(*------------------------------- numbers -------------------------------*)
RECURSIVE BitOp(_, _, _)
BitOp(o, a, b) ==
  IF a = 0 /\ b = 0 THEN 0
  ELSE LET x == a % 2
           y == b % 2
           d == CASE o = "and" -> x * y
                  [] o = "or"  -> (IF x + y > 0 THEN 1 ELSE 0)
                  [] o = "xor" -> (x + y) % 2
       IN d + 2 * BitOp(o, a \div 2, b \div 2)
RECURSIVE IntPow(_, _)
IntPow(b, n) == IF n = 0 THEN 1 ELSE b * IntPow(b, n - 1)
Pow(x, n) == IF n >= 0 THEN Rat(IntPow(x[2], n), IntPow(x[3], n)) ELSE Rat(IntPow(x[3], -n), IntPow(x[2], -n))
FloorV(v) == FloorDiv(v[2], v[3])
CeilV(v)  == -FloorDiv(-v[2], v[3])
(* ROUND(x, n): halves are not generated (the code rounds them to even, MySQL away from zero) *)
RoundTo(v, n) == LET p == Pow(Num(10), n)
                     y == Arith("*", v, p)
                 IN Arith("/", Num(FloorV(Arith("+", y, Rat(1, 2)))), p)
Sign(v) == IF v[2] > 0 THEN 1 ELSE IF v[2] < 0 THEN -1 ELSE 0

Digit(d) == 48 + d
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<Digit(n)>> ELSE NatText(n \div 10) \o <<Digit(n % 10)>>
Text(v) == IF IsTxt(v) THEN v[4] ELSE IF v[1] \in {4, 5, 6} THEN DText(v) ELSE IF v[2] < 0 THEN <<45>> \o NatText(-v[2]) ELSE NatText(v[2])
RECURSIVE JoinText(_, _)
JoinText(s, sep) == IF s = <<>> THEN <<>>
                    ELSE IF Len(s) = 1 THEN Text(s[1])
                    ELSE Text(s[1]) \o sep \o JoinText(Tail(s), sep)
RECURSIVE OctText(_)
OctText(n) == IF n < 8 THEN <<Digit(n)>> ELSE OctText(n \div 8) \o <<Digit(n % 8)>>

(*-------------------------------- texts --------------------------------*)
Low(c) == IF (c >= 65 /\ c <= 90) \/ (c >= 192 /\ c <= 222 /\ c # 215) THEN c + 32 ELSE c     \* ASCII and Latin-1 letters
Upp(c) == IF (c >= 97 /\ c <= 122) \/ (c >= 224 /\ c <= 254 /\ c # 247) THEN c - 32 ELSE c
RevSeq(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Take(s, n) == SubSeq(s, 1, IF n < 0 THEN 0 ELSE IF n > Len(s) THEN Len(s) ELSE n)
Drop(s, n) == SubSeq(s, (IF n < 0 THEN 0 ELSE n) + 1, Len(s))
LastN(s, n) == IF n <= 0 THEN <<>> ELSE IF n >= Len(s) THEN s ELSE Drop(s, Len(s) - n)
RECURSIVE RepeatSeq(_, _)
RepeatSeq(s, n) == IF n <= 0 THEN <<>> ELSE s \o RepeatSeq(s, n - 1)
Starts(s, p) == Len(p) <= Len(s) /\ Take(s, Len(p)) = p
Ends(s, p)   == Len(p) <= Len(s) /\ LastN(s, Len(p)) = p
PosOf(s, p)  == LET h == {i \in 1..(Len(s) + 1) : Starts(Drop(s, i - 1), p)}     \* first position of p in s, 0 if none
                IN IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : i <= j
RECURSIVE SplitBy(_, _)
SplitBy(s, d) == LET p == PosOf(s, d) IN       \* d is not empty
                 IF p = 0 THEN <<s>> ELSE <<Take(s, p - 1)>> \o SplitBy(Drop(s, p + Len(d) - 1), d)
RECURSIVE JoinBy(_, _)
JoinBy(ps, d) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o d \o JoinBy(Tail(ps), d)
(* SUBSTRING(s, n, l): n counts from 1, or from the end when negative; outside the text is empty *)
Substr(s, n, l) == LET m == IF n < 0 THEN n + Len(s) + 1 ELSE n
                   IN IF m <= 0 THEN <<>> ELSE Take(Drop(s, m - 1), l)
SubstrIndex(s, d, c) == LET ps == SplitBy(s, d) IN
                        JoinBy(IF c >= 0 THEN Take(ps, c) ELSE LastN(ps, -c), d)
InsertText(s, x, l, r) == IF x < 1 \/ x > Len(s) THEN s ELSE Take(s, x - 1) \o r \o Drop(s, x - 1 + l)
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] = 32 THEN TrimL(Tail(s)) ELSE s
Trim(s)  == RevSeq(TrimL(RevSeq(TrimL(s))))
Utf8Len(s) == FoldLeft(LAMBDA a, c : a + (IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4), 0, s)
IndexIn(x, l) == LET h == {i \in DOMAIN l : l[i] = x} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : i <= j

(*------------------------- regular expressions --------------------------*)
(* Patterns are sequences of items [c |-> code point (46 is any), n |-> min *)
(* repeats, m |-> 1 for at most one and -1 for any number], possibly       *)
(* anchored.  Matching is leftmost and greedy.                             *)
RECURSIVE ReItems(_)
ReItems(p) == IF p = <<>> THEN <<>>
              ELSE LET s == IF Len(p) > 1 THEN p[2] ELSE 0
                       q == s \in {42, 43, 63} IN
                   <<[c |-> p[1], n |-> IF s = 42 \/ s = 63 THEN 0 ELSE 1, m |-> IF s = 42 \/ s = 43 THEN -1 ELSE 1]>>
                   \o ReItems(IF q THEN Drop(p, 2) ELSE Tail(p))
One(it, s, ci) == s # <<>> /\ (it.c = 46 \/ s[1] = it.c \/ (ci /\ Low(s[1]) = Low(it.c)))
RECURSIVE ReHere(_, _, _, _)
(* length of the greedy match of items at the start of s, -1 if none; end: the match must reach the end *)
ReHere(its, s, end, ci) ==
  IF its = <<>> THEN (IF end /\ s # <<>> THEN -1 ELSE 0)
  ELSE LET it   == its[1]
           more == IF One(it, s, ci)
                   THEN LET rest == IF it.m = -1 THEN <<[it EXCEPT !.n = 0]>> \o Tail(its) ELSE Tail(its)
                            r    == ReHere(rest, Tail(s), end, ci)
                        IN IF r < 0 THEN -1 ELSE r + 1
                   ELSE -1
       IN IF more >= 0 THEN more ELSE IF it.n = 0 THEN ReHere(Tail(its), s, end, ci) ELSE -1
Pat(p) == LET a == p # <<>> /\ p[1] = 94
              b == p # <<>> /\ p[Len(p)] = 36
              x == IF a THEN Tail(p) ELSE p
          IN [anch |-> a, end |-> b, its |-> ReItems(IF b THEN Take(x, Len(x) - 1) ELSE x)]
ReAt(pt, s, i, ci) == IF pt.anch /\ i > 1 THEN -1 ELSE ReHere(pt.its, Drop(s, i - 1), pt.end, ci)
(* first match at or after position i: <<position, length>>, <<0, 0>> if none *)
ReFind(pt, s, ci) == LET h == {i \in 1..(Len(s) + 1) : ReAt(pt, s, i, ci) >= 0} IN
                     IF h = {} THEN <<0, 0>>
                     ELSE LET i == CHOOSE i \in h : \A j \in h : i <= j IN <<i, ReAt(pt, s, i, ci)>>
RECURSIVE ReReplace(_, _, _, _)
(* every non-overlapping match replaced; patterns that match the empty text are not generated *)
ReReplace(pt, s, r, ci) == LET f == ReFind(pt, s, ci) IN
                           IF f[1] = 0 THEN s
                           ELSE Take(s, f[1] - 1) \o r \o ReReplace([pt EXCEPT !.its = IF pt.anch THEN <<[c |-> 0, n |-> 1, m |-> 1]>> ELSE @],
                                                                    Drop(s, f[1] + f[2] - 1), r, ci)

(*----------------------------- conversions -----------------------------*)
(* CAST(v AS T), CONVERT_T(v) and the annotation `v[T]`: every value becomes *)
(* a value of T.  NULL and texts that are no number become 0 (int, float),   *)
(* NULL becomes '' (text) and false (bool); an int is cut, not rounded.      *)
AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] >= 48 /\ s[i] <= 57
RECURSIVE NatOf(_)
NatOf(s) == IF s = <<>> THEN 0 ELSE 10 * NatOf(Take(s, Len(s) - 1)) + (s[Len(s)] - 48)
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
SignOf(s) == IF s # <<>> /\ s[1] = 45 THEN -1 ELSE 1
IntOfText(t) == LET s == Trim(t) IN IF AllDigits(Unsigned(s)) THEN Num(SignOf(s) * NatOf(Unsigned(s))) ELSE Num(0)
FloatOfText(t) ==
  LET s == Trim(t)
      u == Unsigned(s)
      p == PosOf(u, <<46>>)
      a == IF p = 0 THEN u ELSE Take(u, p - 1)
      b == IF p = 0 THEN <<>> ELSE Drop(u, p)
  IN IF (a \o b) # <<>> /\ AllDigits(a \o b) THEN Rat(SignOf(s) * NatOf(a \o b), IntPow(10, Len(b))) ELSE Num(0)
RECURSIVE PadZero(_, _)
PadZero(s, n) == IF Len(s) >= n THEN s ELSE PadZero(<<48>> \o s, n)
FracText(v) ==           \* a fraction is written with six decimals
  LET n == Abs(v[2])
  IN (IF v[2] < 0 THEN <<45>> ELSE <<>>) \o NatText(n \div v[3]) \o <<46>> \o PadZero(NatText(((n % v[3]) * 1000000) \div v[3]), 6)
ToInt(v)   == IF IsNull(v) THEN Num(0) ELSE IF IsNum(v) THEN Trunc(v) ELSE IntOfText(v[4])
ToFloat(v) == IF IsNull(v) THEN Num(0) ELSE IF IsNum(v) THEN v ELSE FloatOfText(v[4])
ToText(v)  == IF IsNull(v) THEN Txt(<<>>) ELSE IF IsTxt(v) THEN v ELSE IF ~IsNum(v) \/ v[3] = 1 THEN Txt(Text(v)) ELSE Txt(FracText(v))
ToBool(v)  == Bool(Truth(v))

(*----------------------------- the library -----------------------------*)
NullIn(as) == \E i \in DOMAIN as : IsNull(as[i])
S(as, i) == Text(as[i])
N(as, i) == as[i][2]
MaxV(as) == FoldLeft(LAMBDA a, v : IF Cmp(v, a) > 0 THEN v ELSE a, as[1], Tail(as))
MinV(as) == FoldLeft(LAMBDA a, v : IF Cmp(v, a) < 0 THEN v ELSE a, as[1], Tail(as))
UnitOf(v) == Units[v[2]]          \* units are passed as their position
Strict(f, as) ==
  CASE f = "greatest" -> MaxV(as)
    [] f = "least"    -> MinV(as)
    [] f = "abs"      -> <<1, Abs(as[1][2]), as[1][3], <<>>>>
    [] f = "sign"     -> Num(Sign(as[1]))
    [] f \in {"ceil", "ceiling"} -> Num(CeilV(as[1]))
    [] f = "floor"    -> Num(FloorV(as[1]))
    [] f = "round"    -> RoundTo(as[1], IF Len(as) > 1 THEN N(as, 2) ELSE 0)
    [] f = "mod"      -> Arith("%", as[1], as[2])
    [] f \in {"pow", "power"} -> IF as[1][2] = 0 /\ N(as, 2) < 0 THEN NULL ELSE Pow(as[1], N(as, 2))
    [] f = "sqrt2"    -> as[1]                                   \* SQRT(x*x), x >= 0
    [] f = "concat"   -> Txt(JoinText(as, <<>>))
    [] f = "length"   -> Num(Utf8Len(S(as, 1)))
    [] f = "bit_length" -> Num(8 * Utf8Len(S(as, 1)))
    [] f \in {"char_length", "character_length"} -> Num(Len(S(as, 1)))
    [] f \in {"lower", "lcase"} -> Txt(MapSeq(S(as, 1), Low))
    [] f \in {"upper", "ucase"} -> Txt(MapSeq(S(as, 1), Upp))
    [] f = "left"     -> Txt(Take(S(as, 1), N(as, 2)))
    [] f = "right"    -> Txt(LastN(S(as, 1), N(as, 2)))
    [] f \in {"substring", "substr"} -> Txt(Substr(S(as, 1), N(as, 2), IF Len(as) > 2 THEN N(as, 3) ELSE Len(S(as, 1))))
    [] f = "substring_index" -> Txt(SubstrIndex(S(as, 1), S(as, 2), N(as, 3)))
    [] f = "replace"  -> Txt(JoinBy(SplitBy(S(as, 1), S(as, 2)), S(as, 3)))
    [] f = "repeat"   -> Txt(RepeatSeq(S(as, 1), N(as, 2)))
    [] f = "reverse"  -> Txt(RevSeq(S(as, 1)))
    [] f = "trim"     -> Txt(Trim(S(as, 1)))
    [] f = "strcmp"   -> Num(SeqCmp(S(as, 1), S(as, 2)))
    [] f = "startswith" -> Bool(Starts(S(as, 1), S(as, 2)))
    [] f = "endswith" -> Bool(Ends(S(as, 1), S(as, 2)))
    [] f = "contains" -> Bool(PosOf(S(as, 1), S(as, 2)) > 0)
    [] f = "find_in_set" -> Num(IndexIn(S(as, 1), SplitBy(S(as, 2), <<44>>)))
    [] f \in {"ascii", "ord"} -> Num(IF S(as, 1) = <<>> THEN 0 ELSE S(as, 1)[1])
    [] f = "datediff" -> LET a == ToDate(as[1])
                             b == ToDate(as[2]) IN IF IsNull(a) \/ IsNull(b) THEN NULL ELSE Num(a[2] - b[2])
    [] f = "tsdiff"   -> TsDiff(UnitOf(as[1]), as[2], as[3])
    [] f = "from_unixtime" -> DTime(0, N(as, 1))
    [] f = "time_to_sec" -> IF IsTxt(as[1]) THEN (IF ParseTime(S(as, 1)) < 0 THEN NULL ELSE Num(ParseTime(S(as, 1))))
                            ELSE Num(IF IsDT(as[1]) THEN as[1][3] ELSE as[1][2])
    [] f = "sec_to_time" -> Txt((IF N(as, 1) < 0 THEN <<45>> ELSE <<>>) \o TimeText(Abs(N(as, 1))))
    [] f = "date_format" -> LET x == Read(as[1]) IN IF IsNull(x) THEN NULL ELSE Txt(FormatSeq(x, S(as, 2)))
    \* ADDTIME(v, 'd h:m:s'): the text's fields are given as numbers
    [] f = "addtime"  -> AddTime(as[1], N(as, 2), N(as, 3), N(as, 4), N(as, 5), 1)
    [] f = "subtime"  -> AddTime(as[1], N(as, 2), N(as, 3), N(as, 4), N(as, 5), -1)
    [] f = "oct"      -> Txt(OctText(N(as, 1)))
    [] f = "char"     -> Txt([i \in DOMAIN as |-> N(as, i)])
    [] f = "bit_and"  -> Num(BitOp("and", N(as, 1), N(as, 2)))
    [] f = "bit_or"   -> Num(BitOp("or", N(as, 1), N(as, 2)))
    [] f = "bit_xor"  -> Num(BitOp("xor", N(as, 1), N(as, 2)))
    [] f = "shl"      -> Num(N(as, 1) * IntPow(2, N(as, 2)))
    [] f = "shr"      -> Num(N(as, 1) \div IntPow(2, N(as, 2)))
    [] f = "inv"      -> Num(-1 - N(as, 1))
    [] f \in {"regexp", "regexp_like"} ->
         Bool(ReFind(Pat(S(as, 2)), S(as, 1), Len(as) < 3)[1] > 0)               \* a third argument is 'c'
    [] f = "regexp_instr"  -> Num(ReFind(Pat(S(as, 2)), S(as, 1), TRUE)[1])
    [] f = "regexp_substr" -> LET r == ReFind(Pat(S(as, 2)), S(as, 1), TRUE) IN
                              IF r[1] = 0 THEN NULL ELSE Txt(SubSeq(S(as, 1), r[1], r[1] + r[2] - 1))
    \* a user's own functions (harness/userfuncs.py): the value of the Python function, NULL when it raises
    [] f = "u_add"    -> IF IsTxt(as[1]) THEN Txt(as[1][4] \o as[2][4]) ELSE Arith("+", as[1], as[2])
    [] f = "u_mul"    -> Arith("*", as[1], as[2])
    [] f = "u_sub"    -> Arith("-", as[1], as[2])
    [] f = "u_even"   -> IF N(as, 1) % 2 = 0 THEN as[1] ELSE NULL
    [] f = "regexp_replace" -> Txt(ReReplace(Pat(S(as, 2)), S(as, 1), S(as, 3), TRUE))

Fn(f, as) ==
  CASE f = "concat_ws" -> IF IsNull(as[1]) THEN NULL
                          ELSE Txt(JoinText(SelectSeq(Tail(as), LAMBDA v : ~IsNull(v)), S(as, 1)))
    [] f = "elt"       -> IF IsNull(as[1]) \/ N(as, 1) < 1 \/ N(as, 1) >= Len(as) THEN NULL ELSE as[N(as, 1) + 1]
    [] f = "field"     -> IF IsNull(as[1]) THEN Num(0) ELSE Num(IndexIn(as[1], Tail(as)))
    [] f = "u_first"   -> as[1]
    [] f = "u_null"    -> NULL
    [] f = "u_list"    -> Lst(as)
    [] f = "to_int"    -> ToInt(as[1])
    [] f = "to_float"  -> ToFloat(as[1])
    [] f = "to_text"   -> ToText(as[1])
    [] f = "txt"       -> IF IsNull(as[1]) THEN NULL ELSE ToText(as[1])
    [] f = "to_bool"   -> ToBool(as[1])
    [] f = "date"      -> ToDate(as[1])
    [] f = "datetime"  -> ToDT(as[1])
    [] f = "time"      -> ToTime(as[1])
    [] f \in DateFuncs -> Field(f, as[1])
    [] f \in JsonFuncs -> JFn(f, as)
    [] f = "add"       -> IF NullIn(<<as[1], as[2]>>) THEN NULL ELSE AddUnit(UnitOf(as[3]), as[1], N(as, 2))
    [] f = "sub"       -> IF NullIn(<<as[1], as[2]>>) THEN NULL ELSE AddUnit(UnitOf(as[3]), as[1], -N(as, 2))
    [] OTHER           -> IF NullIn(as) THEN NULL ELSE Strict(f, as)
=============================================================================
