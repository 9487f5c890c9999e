------------------------------- MODULE Docs ---------------------------------
(***************************************************************************)
(* JSON documents: their texts, paths into them and the JSON functions.    *)
(* A document is a value: null is NULL, true and false are 1 and 0, an     *)
(* array is a list, and an object is                                       *)
(*   <<7, 0, 1, << <<key, value>>, ... >>>>      (keys are code points)    *)
(* with its keys in the order they were first written.  Named deviations:  *)
(*   JSON-NULL       a null in a document and nothing at all are the same  *)
(*   JSON-STAR       [*] and .* of anything is that thing; keys after it   *)
(*                   are looked up in each of its elements                 *)
(*   JSON-CONTAINS   JSON_CONTAINS asks whether what is at the path equals *)
(*   JSON-TEXT       a text is indexed by its characters (set too: None    *)
(*                   for NULL)                                             *)
(*   JSON-AUTOWRAP   an index changes an array, or a whole document that   *)
(*                   is no array and no object                             *)
(*   JSON-SCALAR     a scalar has length 0, no keys, depth 1; NULL too     *)
(***************************************************************************)
EXTENDS Calendar

Obj(s) == <<7, 0, 1, s>>
IsObj(v) == v[1] = 7
IsLst(v) == v[1] = 3

(*----------------------------- reading texts ----------------------------*)
JFail == <<FALSE, NULL, 0>>                   \* <<read, value, first place after it>>
JSpace == {32, 9, 10, 13}
IsDig(c) == c \in 48..57
JAt(s, i) == IF i \in DOMAIN s THEN s[i] ELSE 0
RECURSIVE SkipSp(_, _)
SkipSp(s, i) == IF JAt(s, i) \in JSpace THEN SkipSp(s, i + 1) ELSE i
RECURSIVE DigEnd(_, _)
DigEnd(s, i) == IF IsDig(JAt(s, i)) THEN DigEnd(s, i + 1) ELSE i
RECURSIVE NatAt(_, _, _)
NatAt(s, i, e) == IF i = e THEN 0 ELSE 10 * NatAt(s, i, e - 1) + (s[e - 1] - 48)
RECURSIVE TenTo(_)
TenTo(n) == IF n = 0 THEN 1 ELSE 10 * TenTo(n - 1)
JNumber(s, i) ==
  LET b  == IF JAt(s, i) = 45 THEN i + 1 ELSE i
      e  == DigEnd(s, b)
      ok == e > b /\ (s[b] # 48 \/ e = b + 1)
      f  == IF JAt(s, e) = 46 /\ IsDig(JAt(s, e + 1)) THEN DigEnd(s, e + 1) ELSE e
      xs == IF JAt(s, f) \in {69, 101} THEN (IF JAt(s, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1) ELSE f
      x  == IF xs > f /\ IsDig(JAt(s, xs)) THEN DigEnd(s, xs) ELSE f
      ex == IF x = f THEN 0 ELSE IF JAt(s, f + 1) = 45 THEN -NatAt(s, xs, x) ELSE NatAt(s, xs, x)
      fr == IF f = e THEN 0 ELSE f - e - 1
      m  == (IF b = i THEN 1 ELSE -1) * (NatAt(s, b, e) * TenTo(fr) + (IF f = e THEN 0 ELSE NatAt(s, e + 1, f)))
  IN IF ~ok THEN JFail
     ELSE <<TRUE, IF ex >= 0 THEN Rat(m * TenTo(ex), TenTo(fr)) ELSE Rat(m, TenTo(fr - ex)), x>>

HexDig(c) == IF IsDig(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
EscOf(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
RECURSIVE JChars(_, _, _)
JChars(s, i, acc) ==                          \* after the opening quote: <<read, codes, next>>
  LET c == JAt(s, i) IN
  IF c = 34 THEN <<TRUE, acc, i + 1>>
  ELSE IF c < 32 THEN JFail                   \* the end, or a control character
  ELSE IF c # 92 THEN JChars(s, i + 1, Append(acc, c))
  ELSE IF JAt(s, i + 1) = 117
  THEN LET d == [k \in 1..4 |-> HexDig(JAt(s, i + 1 + k))] IN
       IF \E k \in 1..4 : d[k] < 0 THEN JFail
       ELSE JChars(s, i + 6, Append(acc, ((d[1] * 16 + d[2]) * 16 + d[3]) * 16 + d[4]))
  ELSE IF EscOf(JAt(s, i + 1)) < 0 THEN JFail ELSE JChars(s, i + 2, Append(acc, EscOf(JAt(s, i + 1))))

WordAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
JTrue  == <<116, 114, 117, 101>>
JFalse == <<102, 97, 108, 115, 101>>
JNull  == <<110, 117, 108, 108>>

JKeyAt(o, k) == {i \in DOMAIN o[4] : o[4][i][1] = k}
JWith(o, k, v) == IF JKeyAt(o, k) = {} THEN Obj(Append(o[4], <<k, v>>))
                 ELSE Obj([i \in DOMAIN o[4] |-> IF o[4][i][1] = k THEN <<k, v>> ELSE o[4][i]])

RECURSIVE JValue(_, _), JItems(_, _, _), JPairs(_, _, _)
JValue(s, i0) ==
  LET i == SkipSp(s, i0)
      c == JAt(s, i)
      r == IF c = 34 THEN JChars(s, i + 1, <<>>) ELSE JFail
      e == SkipSp(s, i + 1)
  IN CASE c = 34 -> IF r[1] THEN <<TRUE, Txt(r[2]), r[3]>> ELSE JFail
       [] c = 91 -> IF JAt(s, e) = 93 THEN <<TRUE, Lst(<<>>), e + 1>> ELSE JItems(s, i + 1, <<>>)
       [] c = 123 -> IF JAt(s, e) = 125 THEN <<TRUE, Obj(<<>>), e + 1>> ELSE JPairs(s, i + 1, Obj(<<>>))
       [] WordAt(s, i, JTrue) -> <<TRUE, TRUEV, i + 4>>
       [] WordAt(s, i, JFalse) -> <<TRUE, FALSEV, i + 5>>
       [] WordAt(s, i, JNull) -> <<TRUE, NULL, i + 4>>
       [] OTHER -> JNumber(s, i)
JItems(s, i, acc) ==
  LET r == JValue(s, i)
      e == SkipSp(s, r[3])
  IN IF ~r[1] THEN JFail
     ELSE IF JAt(s, e) = 44 THEN JItems(s, e + 1, Append(acc, r[2]))
     ELSE IF JAt(s, e) = 93 THEN <<TRUE, Lst(Append(acc, r[2])), e + 1>> ELSE JFail
JPairs(s, i, acc) ==
  LET q == SkipSp(s, i)
      k == IF JAt(s, q) = 34 THEN JChars(s, q + 1, <<>>) ELSE JFail
      c == SkipSp(s, k[3])
      r == JValue(s, c + 1)
      e == SkipSp(s, r[3])
  IN IF ~k[1] THEN JFail
     ELSE IF JAt(s, c) # 58 THEN JFail
     ELSE IF ~r[1] THEN JFail
     ELSE IF JAt(s, e) = 44 THEN JPairs(s, e + 1, JWith(acc, k[2], r[2]))
     ELSE IF JAt(s, e) = 125 THEN <<TRUE, JWith(acc, k[2], r[2]), e + 1>> ELSE JFail
JRead(s) == LET r == JValue(s, 1) IN IF r[1] /\ SkipSp(s, r[3]) = Len(s) + 1 THEN r ELSE JFail

Doc(v) == IF IsTxt(v) THEN (LET r == JRead(v[4]) IN IF r[1] THEN r[2] ELSE v) ELSE v      \* a text is read, if it can be

(*----------------------------- writing texts ----------------------------*)
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>> ELSE NatDigits(n \div 10) \o <<48 + (n % 10)>>
Hex1(n) == IF n < 10 THEN 48 + n ELSE 87 + n
JEsc(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
             [] c < 32 -> <<92, 117, 48, 48, Hex1(c \div 16), Hex1(c % 16)>> [] OTHER -> <<c>>
JText(s) == <<34>> \o FoldLeft(LAMBDA a, c : a \o JEsc(c), <<>>, s) \o <<34>>
RECURSIVE DecDigits(_, _)
DecDigits(n, d) == IF n = 0 THEN <<>> ELSE <<48 + (n * 10) \div d>> \o DecDigits((n * 10) % d, d)
JNum(v) == LET n == Abs(v[2]) IN (IF v[2] < 0 THEN <<45>> ELSE <<>>) \o NatDigits(n \div v[3])
                                 \o (IF v[3] = 1 THEN <<>> ELSE <<46>> \o DecDigits(n % v[3], v[3]))
JoinSeqs(ss, sep) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o sep \o x, <<>>, ss)
RECURSIVE JWrite(_)
JWrite(v) ==
  CASE IsNull(v) -> JNull
    [] IsNum(v)  -> JNum(v)
    [] IsTxt(v)  -> JText(v[4])
    [] IsLst(v)  -> <<91>> \o JoinSeqs([i \in DOMAIN v[4] |-> JWrite(v[4][i])], <<44, 32>>) \o <<93>>
    [] IsObj(v)  -> <<123>> \o JoinSeqs([i \in DOMAIN v[4] |-> JText(v[4][i][1]) \o <<58, 32>> \o JWrite(v[4][i][2])], <<44, 32>>) \o <<125>>
    [] OTHER     -> JText(DText(v))

(*------------------------------- paths ----------------------------------*)
(* $ . key . "any key" [n] [*] ["any key"]  as a sequence of steps         *)
(*   <<"key", codes>>  <<"at", n>>  <<"all">>                               *)
RECURSIVE UpTo(_, _, _)
UpTo(s, i, cs) == IF i > Len(s) \/ s[i] \in cs THEN i ELSE UpTo(s, i + 1, cs)
JKey(cs) == IF cs = <<42>> THEN <<"all">> ELSE <<"key", cs>>
RECURSIVE JSteps(_, _)
JSteps(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 46 THEN JSteps(s, i + 1)
  ELSE IF s[i] = 34 THEN (LET e == UpTo(s, i + 1, {34}) IN <<<<"key", SubSeq(s, i + 1, e - 1)>>>> \o JSteps(s, e + 1))
  ELSE IF s[i] = 91
  THEN IF JAt(s, i + 1) = 34
       THEN LET e == UpTo(s, i + 2, {34}) IN <<<<"key", SubSeq(s, i + 2, e - 1)>>>> \o JSteps(s, e + 2)
       ELSE LET e == UpTo(s, i + 1, {93})
                c == SubSeq(s, i + 1, e - 1)
            IN <<IF c # <<>> /\ \A k \in DOMAIN c : IsDig(c[k]) THEN <<"at", NatAt(c, 1, Len(c) + 1)>> ELSE JKey(c)>> \o JSteps(s, e + 1)
  ELSE LET e == UpTo(s, i, {46, 91}) IN <<JKey(SubSeq(s, i, e - 1))>> \o JSteps(s, e)
JPath(v) == IF IsNull(v) THEN <<>> ELSE JSteps(v[4], IF JAt(v[4], 1) = 36 THEN 2 ELSE 1)

RECURSIVE JGet(_, _)
JGet(v, p) ==
  IF p = <<>> THEN v
  ELSE LET st == p[1]
           el == IF IsLst(v) THEN v[4] ELSE <<v>>
       IN CASE st[1] = "at"  -> IF IsLst(v) /\ st[2] < Len(v[4]) THEN JGet(v[4][st[2] + 1], Tail(p))
                                ELSE IF IsTxt(v) /\ st[2] < Len(v[4]) THEN JGet(Txt(<<v[4][st[2] + 1]>>), Tail(p)) ELSE NULL
            [] st[1] = "all" -> IF Len(p) = 1 THEN v
                                ELSE Lst(SelectSeq([i \in DOMAIN el |-> JGet(el[i], Tail(p))], LAMBDA x : ~IsNull(x)))
            [] OTHER -> IF IsObj(v) /\ JKeyAt(v, st[2]) # {} THEN JGet(v[4][CHOOSE i \in JKeyAt(v, st[2]) : TRUE][2], Tail(p)) ELSE NULL

RECURSIVE JPut(_, _, _)
JPut(v, p, x) ==
  IF p = <<>> THEN v
  ELSE LET st == p[1]
           n  == st[2]
       IN IF st[1] = "at"
          THEN IF ~IsLst(v) THEN v
               ELSE IF Len(p) = 1 THEN Lst(IF n < Len(v[4]) THEN [v[4] EXCEPT ![n + 1] = x] ELSE Append(v[4], x))
               ELSE IF n < Len(v[4]) THEN Lst([v[4] EXCEPT ![n + 1] = JPut(v[4][n + 1], Tail(p), x)]) ELSE v
          ELSE IF ~IsObj(v) THEN v
          ELSE IF Len(p) = 1 THEN JWith(v, n, x)
          ELSE IF JKeyAt(v, n) = {} THEN v ELSE JWith(v, n, JPut(v[4][CHOOSE i \in JKeyAt(v, n) : TRUE][2], Tail(p), x))
(* the whole document: one that is no array is taken for an array of itself *)
JPutDoc(v, p, x) ==
  IF Len(p) = 1 /\ p[1][1] = "at" /\ ~IsLst(v) /\ ~IsObj(v)
  THEN IF IsTxt(v)
       THEN (IF p[1][2] < Len(v[4]) THEN Txt(SubSeq(v[4], 1, p[1][2]) \o (IF IsTxt(x) THEN x[4] ELSE IF IsNull(x) THEN <<78, 111, 110, 101>> ELSE JNum(x)) \o SubSeq(v[4], p[1][2] + 2, Len(v[4]))) ELSE Lst(<<v, x>>))
       ELSE IF p[1][2] = 0 THEN x ELSE Lst(<<v, x>>)
  ELSE JPut(v, p, x)

JWithout(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE JCut(_, _)
JCut(v, p) ==
  IF p = <<>> THEN v
  ELSE LET st == p[1]
           n  == st[2]
       IN IF st[1] = "at"
          THEN IF ~IsLst(v) THEN v
               ELSE IF n >= Len(v[4]) THEN v
               ELSE IF Len(p) = 1 THEN Lst(JWithout(v[4], n + 1)) ELSE Lst([v[4] EXCEPT ![n + 1] = JCut(v[4][n + 1], Tail(p))])
          ELSE IF ~IsObj(v) THEN v
          ELSE IF JKeyAt(v, n) = {} THEN v
          ELSE LET i == CHOOSE i \in JKeyAt(v, n) : TRUE IN
               IF Len(p) = 1 THEN Obj(JWithout(v[4], i)) ELSE Obj([v[4] EXCEPT ![i] = <<n, JCut(v[4][i][2], Tail(p))>>])

(* equality of documents: the order of an object's keys does not matter *)
RECURSIVE JEq(_, _)
JEq(a, b) ==
  IF IsObj(a) /\ IsObj(b)
  THEN /\ Len(a[4]) = Len(b[4])
       /\ \A i \in DOMAIN a[4] : \E j \in DOMAIN b[4] : a[4][i][1] = b[4][j][1] /\ JEq(a[4][i][2], b[4][j][2])
  ELSE IF IsLst(a) /\ IsLst(b)
  THEN Len(a[4]) = Len(b[4]) /\ \A i \in DOMAIN a[4] : JEq(a[4][i], b[4][i])
  ELSE a[1] = b[1] /\ a = b

RECURSIVE JDepth(_)
JDepth(v) ==
  LET below == IF IsLst(v) THEN {JDepth(v[4][i]) : i \in DOMAIN v[4]} ELSE IF IsObj(v) THEN {JDepth(v[4][i][2]) : i \in DOMAIN v[4]} ELSE {}
  IN IF below = {} THEN 1 ELSE 1 + (CHOOSE m \in below : \A x \in below : x <= m)

(*------------------------------ GET_VALUE -------------------------------*)
(* GET_VALUE(v, k1, k2, ...): ki is a text of keys joined by dots, a number (an element, from the end if negative) or *)
(* a list of 2 or 3 numbers (a slice).  A key of an array is looked up in each of its objects (those that have it).     *)
SliceAt(n, len, st) ==                        \* the bounds of a slice, as Python takes them
  LET m == IF n < 0 THEN n + len ELSE n IN
  IF st > 0 THEN (IF m < 0 THEN 0 ELSE IF m > len THEN len ELSE m) ELSE (IF m < 0 THEN -1 ELSE IF m >= len THEN len - 1 ELSE m)
RECURSIVE UpFrom(_, _, _)
UpFrom(i, j, st) == IF (st > 0 /\ i >= j) \/ (st < 0 /\ i <= j) THEN <<>> ELSE <<i>> \o UpFrom(i + st, j, st)
RECURSIVE JDotted(_, _)
JDotted(s, i) == LET e == UpTo(s, i, {46}) IN <<SubSeq(s, i, e - 1)>> \o (IF e > Len(s) THEN <<>> ELSE JDotted(s, e + 1))
Key1(v, k) ==
  IF IsObj(v) THEN (IF JKeyAt(v, k) = {} THEN NULL ELSE v[4][CHOOSE i \in JKeyAt(v, k) : TRUE][2])
  ELSE IF IsLst(v) THEN Lst(LET os == SelectSeq(v[4], LAMBDA x : IsObj(x) /\ \E j \in JKeyAt(x, k) : ~IsNull(x[4][j][2])) IN [i \in DOMAIN os |-> os[i][4][CHOOSE j \in JKeyAt(os[i], k) : TRUE][2]])
  ELSE NULL
Index1(v, k) ==
  IF IsNum(k) THEN (IF ~IsLst(v) THEN NULL ELSE LET n == IF k[2] < 0 THEN k[2] + Len(v[4]) ELSE k[2] IN IF n >= 0 /\ n < Len(v[4]) THEN v[4][n + 1] ELSE NULL)
  ELSE IF ~IsLst(v) THEN NULL
  ELSE LET st == IF Len(k[4]) > 2 THEN k[4][3][2] ELSE 1
           a  == SliceAt(k[4][1][2], Len(v[4]), st)
           b  == SliceAt(k[4][2][2], Len(v[4]), st)
           ix == UpFrom(a, b, st)
       IN Lst([i \in DOMAIN ix |-> v[4][ix[i] + 1]])
RECURSIVE Dig(_, _)
Dig(v, ks) == IF ks = <<>> THEN v
              ELSE Dig(IF IsTxt(ks[1]) THEN (LET d == JDotted(ks[1][4], 1) IN FoldLeft(LAMBDA x, k : Key1(x, k), v, d)) ELSE Index1(v, ks[1]), Tail(ks))

(*---------------------------- the functions -----------------------------*)
JsonFuncs == {"json_valid", "json_encode", "json_decode", "json_array", "json_extract", "json_contains", "json_contains_path", "json_set", "json_remove", "json_depth",
              "json_keys", "json_length", "get_value"}
JOne == <<111, 110, 101>>
RECURSIVE JPutAll(_, _)
JPutAll(v, as) == IF Len(as) < 2 THEN v ELSE JPutAll(JPutDoc(v, JPath(as[1]), as[2]), SubSeq(as, 3, Len(as)))
JPaths(as, n) == [i \in 1..(Len(as) - n) |-> JPath(as[i + n])]
JFold(c) == IF c \in 65..90 THEN c + 32 ELSE c
JFn(f, as) ==
  LET v == IF as = <<>> THEN NULL ELSE Doc(as[1])
      w == IF Len(as) > 1 /\ f \in {"json_keys", "json_length"} THEN JGet(v, JPath(as[2])) ELSE v
  IN CASE f = "json_valid"  -> Bool(IsTxt(as[1]) => JRead(as[1][4])[1])
       [] f = "json_encode" -> Txt(JWrite(as[1]))
       [] f = "json_decode" -> IF ~IsTxt(as[1]) THEN NULL ELSE JRead(as[1][4])[2]
       [] f = "json_array"  -> Lst(as)
       [] f = "get_value"   -> Dig(as[1], Tail(as))
       [] f = "json_depth"  -> Num(JDepth(v))
       [] f \in {"json_keys", "json_length"} /\ Len(as) > 1 /\ IsNull(v) -> NULL
       [] f = "json_keys"   -> Lst(IF IsObj(w) THEN [i \in DOMAIN w[4] |-> Txt(w[4][i][1])] ELSE <<>>)
       [] f = "json_length" -> Num(IF IsObj(w) \/ IsLst(w) THEN Len(w[4]) ELSE 0)
       [] IsNull(v)         -> NULL
       [] f = "json_extract" -> JGet(v, JPath(as[2]))
       [] f = "json_contains" -> Bool(JEq(JGet(v, JPath(as[3])), Doc(as[2])))
       [] f = "json_contains_path" ->
            LET has == {~IsNull(JGet(v, JPaths(as, 2)[i])) : i \in 1..(Len(as) - 2)} IN
            Bool(IF MapSeq(as[2][4], JFold) = JOne THEN TRUE \in has ELSE ~(FALSE \in has))
       [] f = "json_set"    -> JPutAll(v, Tail(as))
       [] f = "json_remove" -> FoldLeft(LAMBDA x, p : JCut(x, p), v, JPaths(as, 1))
=============================================================================
