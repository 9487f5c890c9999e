------------------------------ MODULE Splitter ------------------------------
(***************************************************************************)
(* How a script's text is cut into statements.  Text is a sequence of      *)
(* character codes.  One step consumes one character (or the two of a      *)
(* comment mark).  The modes:                                              *)
(*   "text"    outside everything                                          *)
(*   "quote"   inside a quote of kind q, where a backslash takes the next  *)
(*             character with it                                           *)
(*   "line"    inside a comment from -- or # up to the end of the line     *)
(*   "block"   inside a comment from /* to the next */                     *)
(* A statement begins at the first letter outside quotes and comments and  *)
(* ends before the next semicolon outside them, or with the text.  It      *)
(* carries the number of the line it begins on.  A quote or block comment  *)
(* that is not closed makes the whole text an error.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

NL == 10
DQ == 34
HASH == 35
SQ == 39
STAR == 42
DASH == 45
SLASH == 47
SEMI == 59
BSLASH == 92
BTICK == 96
Letter(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 192..255 \ {215, 247}

Start == [i |-> 1, mode |-> "text", q |-> 0, line |-> 1, from |-> 0, fline |-> 0, out |-> <<>>]

At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
Pair(t, i, a, b) == At(t, i) = a /\ At(t, i + 1) = b
Lines(t, i, n) == Len(SelectSeq(SubSeq(t, i, i + n - 1), LAMBDA c : c = NL))

(* moves n characters on *)
Move(t, s, n) == [s EXCEPT !.i = s.i + n, !.line = s.line + Lines(t, s.i, IF s.i + n - 1 <= Len(t) THEN n ELSE Len(t) - s.i + 1)]

Cut(t, s) == IF s.from = 0 THEN s
             ELSE [s EXCEPT !.out = Append(s.out, <<SubSeq(t, s.from, s.i - 1), s.fline>>), !.from = 0]

TextStep(t, s) ==
  LET c == t[s.i] IN
  CASE c \in {DQ, SQ, BTICK}        -> Move(t, [s EXCEPT !.mode = "quote", !.q = c], 1)
    [] c = HASH                     -> Move(t, [s EXCEPT !.mode = "line"], 1)
    [] Pair(t, s.i, DASH, DASH)     -> Move(t, [s EXCEPT !.mode = "line"], 2)
    [] Pair(t, s.i, SLASH, STAR)    -> Move(t, [s EXCEPT !.mode = "block"], 2)
    [] c = SEMI                     -> Move(t, Cut(t, s), 1)
    [] Letter(c) /\ s.from = 0      -> Move(t, [s EXCEPT !.from = s.i, !.fline = s.line], 1)
    [] OTHER                        -> Move(t, s, 1)

Step(t, s) ==
  CASE s.mode = "text"  -> TextStep(t, s)
    [] s.mode = "quote" -> IF t[s.i] = BSLASH THEN Move(t, s, 2)
                           ELSE Move(t, IF t[s.i] = s.q THEN [s EXCEPT !.mode = "text"] ELSE s, 1)
    [] s.mode = "line"  -> Move(t, IF t[s.i] = NL THEN [s EXCEPT !.mode = "text"] ELSE s, 1)
    [] s.mode = "block" -> IF Pair(t, s.i, STAR, SLASH) THEN Move(t, [s EXCEPT !.mode = "text"], 2) ELSE Move(t, s, 1)

RECURSIVE Run(_, _)
Run(t, s) == IF s.i > Len(t) THEN s ELSE Run(t, Step(t, s))

Split(t) == LET s == Run(t, Start)
            IN [err |-> IF s.mode \in {"quote", "block"} THEN 1 ELSE 0,
                out |-> IF s.mode \in {"quote", "block"} THEN <<>> ELSE Cut(t, [s EXCEPT !.i = Len(t) + 1]).out]

(*------------------------------- lemmas --------------------------------*)
(* A statement is a statement of its own; texts can be put together.       *)
Whole(t) == \A i \in DOMAIN Split(t).out :
              LET p == Split(t).out[i][1] IN Split(p) = [err |-> 0, out |-> <<<<p, 1>>>>]
Texts(t) == [i \in DOMAIN Split(t).out |-> Split(t).out[i][1]]
Joins(a, b) == (Run(a, Start).mode = "text" /\ Split(b).err = 0) => Texts(a \o <<SEMI>> \o b) = Texts(a) \o Texts(b)
=============================================================================
