------------------------------- MODULE Subst -------------------------------
(***************************************************************************)
(* ${name} and ${name:default} in a statement's text.  Text is a sequence  *)
(* of character codes.  Before a statement is read, every reference in it  *)
(* is replaced, in one pass, by the text of a value: the variable of that  *)
(* name nearest to the statement, else the process's environment variable  *)
(* of that name in any case, else the default - which, written as a call   *)
(* of a known function, is what that function gives - else nothing.        *)
(* What is put in place is not read again.                                 *)
(*                                                                         *)
(* env is a sequence of levels, nearest first; a level is a sequence of    *)
(* <<name, value>>.  A value is a record: k in                             *)
(*   "true" "false" "null"   v  (v a number, text or date)    l (a list)   *)
(***************************************************************************)
EXTENDS Funcs

DOLLAR == 36
OPEN == 123
CLOSE == 125
COLON == 58
AT == 64
COMMA == 44
WordC(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95 \/ c \in 192..255 \ {215, 247}
NameC(c) == WordC(c) \/ c = AT

RECURSIVE NameEnd(_, _)
NameEnd(t, i) == IF i <= Len(t) /\ NameC(t[i]) THEN NameEnd(t, i + 1) ELSE i      \* first place from i on that is no part of a name
RECURSIVE Find(_, _, _)
Find(t, i, c) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE Find(t, i + 1, c)

(* the reference that begins at place i: <<name, default, has default, length>>, length 0 when there is none *)
NoRef == <<<<>>, <<>>, 0, 0>>
RefAt(t, i) ==
  IF ~(i + 2 <= Len(t) /\ t[i] = DOLLAR /\ t[i + 1] = OPEN) THEN NoRef
  ELSE LET e == NameEnd(t, i + 2) IN
       IF e = i + 2 \/ e > Len(t) THEN NoRef
       ELSE IF t[e] = CLOSE THEN <<SubSeq(t, i + 2, e - 1), <<>>, 0, e - i + 1>>
       ELSE IF t[e] # COLON THEN NoRef
       ELSE LET c == Find(t, e + 1, CLOSE) IN
            IF c = 0 THEN NoRef ELSE <<SubSeq(t, i + 2, e - 1), SubSeq(t, e + 1, c - 1), 1, c - i + 1>>

(*------------------------------ variables -------------------------------*)
Lower(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
InLevel(lv, name) == {i \in DOMAIN lv : lv[i][1] = name}
RECURSIVE Nearest(_, _)
(* <<found, value>>: @name is also found under the name without the at-sign *)
Nearest(env, name) ==
  IF env = <<>> THEN <<FALSE, NULL>>
  ELSE LET lv == env[1]
           a == InLevel(lv, name)
           b == IF name # <<>> /\ name[1] = AT THEN InLevel(lv, Tail(name)) ELSE {}
       IN IF a # {} THEN <<TRUE, lv[CHOOSE i \in a : TRUE][2]>>
          ELSE IF b # {} THEN <<TRUE, lv[CHOOSE i \in b : TRUE][2]>>
          ELSE Nearest(Tail(env), name)

(*------------------------------- values ---------------------------------*)
True4 == <<116, 114, 117, 101>>
False5 == <<102, 97, 108, 115, 101>>
Null4 == <<110, 117, 108, 108>>
RECURSIVE Decimals(_, _, _)
Decimals(r, d, n) == IF r = 0 \/ n = 0 THEN <<>> ELSE <<Digit((r * 10) \div d)>> \o Decimals((r * 10) % d, d, n - 1)
PlainText(v) == IF ~IsNum(v) \/ v[3] = 1 THEN Text(v)
                ELSE (IF v[2] < 0 THEN <<45>> ELSE <<>>) \o NatText(Abs(v[2]) \div v[3]) \o <<46>> \o Decimals(Abs(v[2]) % v[3], v[3], 12)
RECURSIVE Shown(_)
Shown(x) == CASE x.k = "true" -> True4
              [] x.k = "false" -> False5
              [] x.k = "null" -> Null4
              [] x.k = "list" -> <<40>> \o JoinBy([i \in DOMAIN x.l |-> Shown(x.l[i])], <<COMMA>>) \o <<41>>
              [] OTHER -> PlainText(x.v)

(*---------------------- a default that is a call ------------------------*)
Quoted(s) == Len(s) >= 2 /\ s[1] \in {34, 39} /\ s[Len(s)] \in {34, 39}
Signed(s) == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
Argument(a) ==
  LET s == Trim(a)
      u == Signed(s)
      p == Find(u, 1, 46)
  IN IF s = <<>> THEN Txt(<<>>)
     ELSE IF Quoted(s) THEN Txt(SubSeq(s, 2, Len(s) - 1))
     ELSE IF AllDigits(u) \/ (p > 1 /\ AllDigits(Take(u, p - 1)) /\ AllDigits(Drop(u, p))) THEN FloatOfText(s)
     ELSE IF Lower(s) = True4 THEN TRUEV
     ELSE IF Lower(s) = False5 THEN FALSEV
     ELSE IF Lower(s) = Null4 THEN NULL
     ELSE Txt(s)
RECURSIVE WordEnd(_, _)
WordEnd(t, i) == IF i <= Len(t) /\ WordC(t[i]) THEN WordEnd(t, i + 1) ELSE i
(* <<is a call, function, arguments>>; calls is the sequence of <<name as written, function of Funcs>> *)
CallOf(d, calls) ==
  LET s == Trim(d)
      e == WordEnd(s, 1)
      f == {i \in DOMAIN calls : calls[i][1] = Take(s, e - 1)}
  IN IF e = 1 \/ e >= Len(s) \/ s[e] # 40 \/ s[Len(s)] # 41 \/ f = {} THEN <<FALSE, "", <<>>>>
     ELSE LET inner == SubSeq(s, e + 1, Len(s) - 1)
              as == IF inner = <<>> THEN <<>> ELSE SplitBy(inner, <<COMMA>>)
          IN <<TRUE, calls[CHOOSE i \in f : TRUE][2], [i \in DOMAIN as |-> Argument(as[i])]>>

RefText(r, env, calls) ==
  LET x == Nearest(env, r[1])
      y == IF x[1] THEN x ELSE Nearest(env, Lower(r[1]))
      c == CallOf(r[2], calls)
  IN IF y[1] THEN Shown(y[2])
     ELSE IF c[1] THEN ToText(Fn(c[2], c[3]))[4]
     ELSE r[2]

RECURSIVE SubstFrom(_, _, _, _)
SubstFrom(t, i, env, calls) ==
  IF i > Len(t) THEN <<>>
  ELSE LET j == Find(t, i, DOLLAR)
           r == RefAt(t, j)
       IN IF j = 0 THEN SubSeq(t, i, Len(t))
          ELSE IF r[4] = 0 THEN SubSeq(t, i, j) \o SubstFrom(t, j + 1, env, calls)
          ELSE SubSeq(t, i, j - 1) \o RefText(r, env, calls) \o SubstFrom(t, j + r[4], env, calls)
Subst(t, env, calls) == SubstFrom(t, 1, env, calls)

(*------------------------------- lemmas --------------------------------*)
(* Text without references is itself; text put together from two parts     *)
(* none of whose references crosses the cut is replaced part by part.      *)
Plain(t, env, calls) == (\A i \in DOMAIN t : RefAt(t, i)[4] = 0) => Subst(t, env, calls) = t
Cuts(t, k) == \A i \in 1..k : i + RefAt(t, i)[4] <= k + 1
Parts(t, k, env, calls) ==
  LET a == Take(t, k) b == Drop(t, k)
  IN (Cuts(t, k) /\ \A i \in DOMAIN a : RefAt(a, i)[4] = RefAt(t, i)[4]) => Subst(t, env, calls) = Subst(a, env, calls) \o Subst(b, env, calls)
=============================================================================
